#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
import props

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}},
                           ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': []}
for p in props.PROPS:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % p['id'],
                        'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p['id'],
                        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other',
                        'level_note': p['note']})
m['notes'] = props.NOTES
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
