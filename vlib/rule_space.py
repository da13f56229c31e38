"""P18: white space and comments between the parts of a file do not change what is read."""
import domains
import grammar as G
import roundtrip
import rule_text
from interp import *

OPTS = (' ', '\n\t\r\n ', "/* c , ) ; ' #1= */", ' /* * / */\n/**/ ')


def places(ps):
    """(piece, offset, before/after character) of the separators outside quotes"""
    quote, out = False, []
    for i, p in enumerate(ps):
        if not isinstance(p, str):
            continue
        for j, ch in enumerate(p):
            if ch == "'":
                quote = not quote
            elif not quote and ch in '(),;=':
                out.append((i, j, 'before ' + ch))
                out.append((i, j + 1, 'after ' + ch))
            elif not quote and ch == '#':
                out.append((i, j, 'before #'))
    return out


def insert(J, ps, at, k):
    out, n = [], 0
    for i, p in enumerate(ps):
        cut = sorted({j for a, j, _ in at if a == i})
        if not isinstance(p, str) or not cut:
            out.append(p)
            continue
        last = 0
        for j in cut:
            if p[last:j]:
                out.append(p[last:j])
            w = Sym('space%d' % n, STRING)
            J.data[('ws', w.name)] = OPTS[(n + k) % len(OPTS)]
            n += 1
            out.append(Hole(w, 'ws'))
            last = j
        if p[last:]:
            out.append(p[last:])
    return tuple(out), n


def edit(what, always=True):
    def f(J, ps):
        at = [x for x in places(ps) if what(x, ps)]
        if not at:
            J.data['no place'] = True
            return ps
        k = J.choose(len(OPTS), 'layout')
        out, n = insert(J, ps, at, k)
        return out
    return f


def commas(x, ps):
    return x[2] in ('before ,', 'after ,')


def header(x, ps):
    i, j, w = x
    if w in ('before ;', 'before #') or '=' in w:
        return False
    s = ps[i]
    # not inside an empty list
    return not (w == 'after (' and s[j:].startswith((')', "'')")) or w == 'before )' and s[:j].endswith(('(', "(''")))


def section(x, ps):
    return x[2] in ('before #', 'before =', 'after =', 'after ;')


def p18(ctx):
    F = ctx.F
    types = rule_text.parse_types(F)
    I = rule_text.engine(F)
    ents = rule_text.entity_types(F)
    org = next((t for t in ents if F.show(t) == 'Organization'), None)
    dm = ('adt', F.find_adt('DataMap'), ())
    ifc = ('adt', F.find_adt('IFC'), ())
    if org is None:
        ctx.anchor_missing('Organization')
        return ''
    lens = (0, 1, 2) if ctx.tier == 'quick' else (0, 1, 2, 3)
    todo, seen = [t for t in types if F.show(t) not in ('IFC', 'DataMap', 'Dummy')], set()
    while todo:
        t = todo.pop(0)
        if t in seen:
            continue
        seen.add(t)
        n = F.show(t)
        if n in ('IFC', 'DataMap', 'Dummy') or F.impl_for('std::fmt::Display', [t]) is None:
            continue
        if n == 'Header':
            for one in ('items', 'author', 'organization', 'schema', 'descriptions'):
                def lens_of(name, one=one):
                    return (0, 1, 2) if one in name.split('[')[0 if one != 'items' else -1] else (1,)
                r = roundtrip.check_type(I, t, strings=domains.header_string, lens_of=lens_of, follows=('DATA;',), edit=edit(header))
                rule_text.record(ctx, I, 'header', r)
            continue
        r = roundtrip.check_type(I, t, follows=(',', ')') if n != 'Footer' else ('\n',), strings=rule_text.STRINGS.get(n), lens=lens,
                                 edit=edit(commas))
        rule_text.record(ctx, I, 'record' if t in ents else 'value', r)
        todo += [x for x in r['lemmas'] if x not in seen]

    for lst in ([], [org], [org, org], *([t, org] for t in ents if F.show(t) in ('Wall', 'SiUnit', 'Material', 'RelAggregates', 'PropertySet', 'Axis3D'))):
        r = roundtrip.check_type(I, dm, follows=('\n',), make=lambda J, lst=lst: rule_text.datamap(F, lst, J), edit=edit(section))
        rule_text.record(ctx, I, 'data section', r, ' '.join(F.show(t) for t in lst) or 'empty')

    r = roundtrip.check_type(I, ifc, follows=('',), lens=(0,), edit=edit(lambda x, ps: x[2] == 'after ;'))
    rule_text.record(ctx, I, 'file', r, 'IFC')
    ctx.floor('record', 300)
    ctx.floor('value', 100)
    ctx.floor('header', 10)
    ctx.floor('data section', 8)
    ctx.fns |= I.fn_used
    ctx.assumptions += rule_text.ASSUME + ['white space and comments are represented by four texts (blank, line breaks and tab, a comment with every separator in it, a mixture)']
    return ('Abstract interpretation of printing and reading code: the text of an arbitrary value with white space and comments inserted at every '
            'place of the statement must be read as the same value.')
