"""Writes DESIGN.md from meta/design.md: tables of findings and planted bugs are filled in."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed, opened = [], []
for l in open(R + '/known-findings.txt'):
    if l.startswith('fixed: property='):
        p, c, w = l[len('fixed: property='):].rstrip().split(' ', 2)
        fixed.append('| %s | %s | %s |' % (p, c, w))
    elif l.startswith('finding: property='):
        p, w = l[len('finding: property='):].rstrip().split(' key=', 1)
        opened.append('- %s: %s' % (p, w.replace(' | ', ' — ')))
seeds = ['| id | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
t = open(R + '/meta/design.md').read()
for k, v in (('@FIXED@', fixed), ('@OPEN@', opened), ('@SEEDS@', seeds)):
    t = t.replace(k, '\n'.join(v))
open(R + '/DESIGN.md', 'w').write(t)
