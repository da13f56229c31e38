"""P01/P02/P03: printed text and parsers agree."""
import grammar as G
import domains
import roundtrip
import natives
from interp import *

PARSE = '::parser::IFCParse'
IFCTYPE = '::traits::ifc_type::IfcType'
FOLLOWS = (',', ')', ';', '\n')
STRINGS = {'StringPrimitive': domains.encoded_string, 'Dummy': domains.dummy_string, 'Header': domains.header_string}


def engine(F):
    I = Interp(F, natives.N)
    roundtrip.setup(I)
    return I


def parse_types(F):
    return [im['self'] for im in F.impls_by_trait.get(PARSE, []) if not im['gen'] and im['self'][0] == 'adt']


def entity_types(F):
    """types that can be entries of the data section and have a keyword"""
    out = []
    for t in parse_types(F):
        if not F.implements(IFCTYPE, [t]):
            continue
        if F.show(t) in ('Header', 'Footer', 'RealPrimitive', 'IFC', 'DataMap'):
            continue
        out.append(t)
    return out


def keyword(I, t):
    """the literal keyword a type prints, or None"""
    I.lens = (0, 1)
    try:
        for kind, r in I.paths(lambda J: _print(J, t)):
            if kind == 'ok' and r and isinstance(r[0], str) and r[0].startswith('IFC') and '(' in r[0]:
                return r[0][:r[0].index('(')]
            return None
    finally:
        I.lens = (0, 1, 2)


def _print(J, t):
    J.data['atomic'] = lambda u: u != t and roundtrip.implements_parse(J.F, u)
    v = J.sym('v', t)
    f = Fmt()
    natives._call_display(J, v, t, f) if isinstance(v, Sym) else J.display(v, f)
    return pieces_of(mktxt(f.out))


def pieces_of(t):
    return G.pieces(t)


def record(ctx, I, kind, r, key=None):
    F = ctx.F
    name = key or r['type']
    ctx.count('paths', r['paths'])
    if r['ok']:
        ctx.good(kind, '%s: %d abstract values' % (name, r['ok']), r['ok'])
    seen = set()
    for text, why, tr in r['problems']:
        if why in seen:
            continue
        seen.add(why)
        ctx.bad(kind, '%s' % name, '%s prints %s; %s [%s]' % (name, text[:400], why, tr[:300]))
    for u in r['undecided'][:3]:
        ctx.undecided(kind, name, u)
    if not r['paths']:
        ctx.bad(kind, name, '%s: no feasible value was analysed' % name)


def header_runs(I, t):
    for one in ('descriptions', 'items', 'author', 'organization', 'schema'):
        def lens_of(name, one=one):
            return (0, 1, 2) if one in name.split('[')[0 if one != 'items' else -1] else (1,)
        yield roundtrip.check_type(I, t, strings=domains.header_string, lens_of=lens_of, follows=('DATA;',))


def p01(ctx):
    F = ctx.F
    I = engine(F)
    todo = parse_types(F)
    seen = set()
    lens = (0, 1, 2) if ctx.tier == 'quick' else (0, 1, 2, 3)
    I.long_lists = True
    while todo:
        t = todo.pop(0)
        if t in seen:
            continue
        seen.add(t)
        n = F.show(t)
        if n in ('IFC', 'DataMap'):
            continue
        if F.impl_for('std::fmt::Display', [t]) is None:
            ctx.bad('prints', n, '%s is parsed but cannot be printed' % n)
            continue
        if n == 'Header':
            for r in header_runs(I, t):
                record(ctx, I, 'print-parse', r)
            continue
        r = roundtrip.check_type(I, t, follows=FOLLOWS if n not in ('Footer',) else ('', '\n'), strings=STRINGS.get(n),
                                 lens=lens)
        record(ctx, I, 'print-parse', r)
        todo += [x for x in r['lemmas'] if x not in seen]
    ctx.count('types', len(seen))
    ctx.floor('types', 215)
    ctx.fns |= I.fn_used
    ctx.assumptions += ASSUME
    return ('Path-sensitive abstract interpretation of every Display and parser implementation (typed THIR of the '
            'current tree). For each type the text its Display code builds for an arbitrary value (unknown parts are '
            'holes with a character class) is matched by the combinator expression its parser code builds; every '
            'abstract path must give the same value back and leave the following text. Sub-values printed by their '
            'own Display are matched as a whole by their own parser, whose agreement is a separate obligation.')


ASSUME = [
    'std, chrono, uuid, strum, itertools and winnow 0.6 behave as modelled in vlib/natives.py and vlib/grammar.py',
    'strings contain no apostrophe and no backslash (known finding: they are not escaped); numbers are finite',
    'lists are split into lengths 0..2 (quick) or 0..3 (thorough); list combinators treat further elements alike',
]


def datamap(F, items, J):
    DM, ID = F.find_adt('DataMap'), F.find_adt('Id')
    ents = []
    for i, u in enumerate(items):
        ents.append((Obj(ID, 'Id', {'0': Sym('k%d' % i, ('prim', 'usize'))}), J.sym('e%d' % i, u)))
        for j in range(i):
            J.pc['eq(k%d,k%d)' % (j, i)] = False
    return Obj(DM, 'DataMap', {'0': Map('BTreeMap', ents)})


def p02(ctx):
    F = ctx.F
    I = engine(F)
    dm = ('adt', F.find_adt('DataMap'), ())
    ents = entity_types(F)
    org = [t for t in ents if F.show(t) == 'Organization']
    dummy = [t for t in ents if F.show(t) == 'Dummy']
    if not org or not dummy:
        ctx.anchor_missing('Organization / Dummy entry types')
        return 'data section'
    org, dummy = org[0], dummy[0]
    kws = {}
    for t in ents:
        if t == dummy:
            continue
        k = keyword(I, t)
        n = F.show(t)
        if k is None:
            ctx.bad('keyword', n, '%s does not print an entity keyword first' % n)
            continue
        ctx.good('keyword', '%s -> %s' % (n, k))
        kws.setdefault(k, t)
    for t in ents:
        if t == dummy:
            continue
        # alone and between other entries
        for lst in ([t, org, t], [t], [org, t]):
            r = roundtrip.check_type(I, dm, follows=('\n',), make=lambda J, lst=lst: datamap(F, lst, J), fallback=dummy)
            record(ctx, I, 'data-section', r, F.show(t))
            if ctx.tier == 'quick':
                break
    r = roundtrip.check_type(I, dm, follows=('\n', ''), make=lambda J: datamap(F, [], J))
    for n in F.long():
        for u in (org, dummy):
            x = roundtrip.check_type(I, dm, follows=('\n',), make=lambda J: datamap(F, [u] * (n - 1) + [org], J),
                                     strings=lambda J, name: mktxt(['IFCUNKNOWN(', domains.dummy_string(J, name, (0,))]) if name.endswith('.s') else None)
            record(ctx, I, 'data-section', x, '%d entries' % n)
    record(ctx, I, 'data-section', r, 'empty')
    ctx.count('entity types', len(ents) - 1)
    # unknown entity names stay verbatim, also where they extend or abbreviate a known one
    for k in sorted(kws):
        shapes = (0, 1, 2) if k in ('IFCWALL', 'IFCORGANIZATION') or ctx.tier != 'quick' else (0,)
        for kw in (k + 'STANDARDCASE', k[:-1] + '_') + (() if ctx.tier == 'quick' else ('X' + k,)):
            if kw in kws:
                continue
            for last in (False, True):
                def strs(J, name, kw=kw):
                    if name != 'e0.s':
                        return None
                    rest = domains.dummy_string(J, name, shapes)
                    return mktxt([kw + '(', rest])
                lst = [dummy] if last else [dummy, org]
                if last and ctx.tier == 'quick':
                    continue
                r = roundtrip.check_type(I, dm, follows=('\n',), strings=strs, make=lambda J, lst=lst: datamap(F, lst, J))
                record(ctx, I, 'unknown-entity', r, 'unknown ' + kw)
    # whole file
    ifc = ('adt', F.find_adt('IFC'), ())
    r = roundtrip.check_type(I, ifc, follows=('',), lens=(0,))
    record(ctx, I, 'file', r, 'IFC')
    ctx.floor('entity types', 75)
    ctx.floor('unknown-entity', 150)
    ctx.fns |= I.fn_used
    ctx.assumptions += ASSUME
    return ('Abstract interpretation of the data-section and file grammar: for every entity type, a data section that '
            'holds an arbitrary entry of it (alone, first, last, between others) is printed and matched by the '
            'section parser; the entry must come back under the same id with the same concrete type. Entities '
            'with a name no type handles, including extensions and near misses of every known name, must come '
            'back as the verbatim fallback. The file grammar composes header, data section and footer.')
