"""P06: no text makes loading panic."""
import grammar as G
import anytext
import natives
import rule_text
import rule_load
import rule_refs
from interp import *

VER = rule_load.VER


def results(ctx, kind, key, paths):
    seen = set()
    for k, r in paths:
        t = str(r)
        if k == 'ok' or t in seen:
            continue
        seen.add(t)
        if k == 'undecided':
            ctx.undecided(kind, key, t)
        else:
            ctx.bad(kind, key, '%s panics: %s' % (key, t))
    ctx.count('paths', len(paths))
    if not seen:
        ctx.good(kind, key)


def some(I, body):
    """all paths; once a panic is found, not many more"""
    out, left = [], None
    for r in I.paths(body):
        out.append(r)
        if r[0] == 'panic' and left is None:
            left = 300
        if left is not None:
            left -= 1
            if left < 0:
                break
    return out


def readers(ctx, I):
    """every reader on arbitrary text; repeated until the set of readers that may take nothing is stable"""
    F = ctx.F
    IFC = ('adt', F.find_adt('IFC'), ())
    empty = set()
    while True:
        I.explored = {}
        I.may_be_empty = frozenset(empty)
        out, types = [], []
        todo = [IFC] + rule_text.parse_types(F)
        while todo:
            t = todo.pop(0)
            if t in types:
                continue
            types.append(t)
            lem, sure = set(), [True]

            def body(J):
                h = anytext.top(J)
                inp = Ref(Cell(G.Stm((h,))), 1)
                r = G.run(J, G.real_parser(J, t), inp)
                lem.update(J.data.get('lemmas', ()))
                if G.is_ok(r):
                    ps = G.norm_stm(J, G.stm(J, inp)).ps
                    if len(ps) == 1 and anytext.is_top(ps[0]):
                        b = anytext.back(J, ps[0], h)
                        if b is not None and not b[1]:
                            sure[0] = False
            out.append(('reader', 'reading a ' + F.show(t), some(I, body)))
            if not sure[0]:
                empty.add(t)
            todo += sorted(lem - set(types), key=F.show)
        if empty == set(I.may_be_empty):
            break
    for x in out:
        results(ctx, *x)
    ctx.count('readers', len(types))
    ctx.count('readers that may take nothing', len(empty))
    return types


def loading(ctx, I):
    """from_str / from_file on arbitrary text, whatever verification answers"""
    F = ctx.F
    IFC = ('adt', F.find_adt('IFC'), ())
    ents = rule_text.entity_types(F)
    pick = [t for t in ents if F.show(t) in ('Organization', 'Dummy')]
    I.dyn_types = lambda v: pick
    strf = [im for im in F.impls_by_trait.get('std::str::FromStr', []) if im['self'] == IFC]
    ff = I.find_method(IFC, 'from_file')
    if not strf or ff is None:
        ctx.anchor_missing('loading a model from text / from a file')
        return
    strf = strf[0]['imap']['from_str'][0]

    def verify(J, selfty, c):
        return ok(UNIT) if J.choose(2, 'verify') == 0 else err(Opaque('verify'))
    I.trait_hooks[(VER, 'verify_id_types')] = verify
    try:
        for n in (0, 1, 2, 3):
            def data(J):
                J.data['value_of'] = lambda K, t, nm: rule_load.model(K, F, n)[1] if t == IFC else None

            def text(J):
                data(J)
                J.run_fn(F.fns[strf], {}, [Ref(Cell(mktxt([anytext.top(J)])), 0)])

            def file(J):
                data(J)
                J.data['read_to_string'] = lambda K, c: err(Opaque('io')) if K.choose(2, 'readable') else ok(mktxt([anytext.top(K)]))
                J.run_fn(F.fns[ff[0]], dict(zip(F.fns[ff[0]]['gen'], [('ref', STR, 0)])), [Ref(Cell(Sym('path', STR)), 0)])
            results(ctx, 'load', 'loading text whose data section has %d entries' % n, some(I, text))
            results(ctx, 'load', 'loading a file whose data section has %d entries' % n, some(I, file))
    finally:
        del I.trait_hooks[(VER, 'verify_id_types')]


def verifying(ctx):
    """verify_id_types of every entry kind, whatever its references name"""
    F = ctx.F
    I, ents, dummy = rule_refs.setup(F)
    I.anytext = True
    for t in ents:
        for full in (0, 1, 2):
            def body(J):
                J.data['lens_of'] = lambda name: (full,)

                def lookup(J, base, k):
                    return Sym('target', ('dyn', rule_refs.IFCTYPE)) if J.decide('present %s' % J.show(k)) else None
                J.data['map_lookup'] = lookup
                v = J.sym('v', t)
                J.call_trait({'d': VER + '::verify_id_types', 'a': [t], 'n': 'verify_id_types', 'tr': VER},
                             [tmp(v), tmp(J.sym('ifc', ('adt', F.find_adt('IFC'), ())))], None, None)
            results(ctx, 'verify', 'verifying a %s' % F.show(t), some(I, body))
    ctx.fns |= I.fn_used


def printing(ctx, types):
    F = ctx.F
    I = rule_text.engine(F)
    I.anytext = True
    pick = [t for t in rule_text.entity_types(F) if F.show(t) in ('Organization', 'Dummy')]
    I.dyn_types = lambda v: pick
    for t in types:
        if F.impl_for('std::fmt::Display', [t]) is None:
            continue
        ps = []
        for n in (0, 1, 2):
            def body(J):
                J.data['lens_of'] = lambda name: (n,)
                rule_text._print(J, t)
            ps += some(I, body)
        results(ctx, 'print', 'writing a ' + F.show(t), ps)
    ctx.fns |= I.fn_used


def p06(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    I.anytext = True
    types = readers(ctx, I)
    loading(ctx, I)
    ctx.fns |= I.fn_used
    verifying(ctx)
    printing(ctx, types)
    ctx.floor('reader', 150)
    ctx.floor('load', 6)
    ctx.floor('verify', 150)
    ctx.floor('print', 150)
    ctx.assumptions += rule_text.ASSUME[:1] + [
        'exhausting memory or the stack is not a panic in this sense; a repetition is represented by one arbitrary round, '
        'and models by 0..3 entries, collections in entries by 0..2 items']
    return ('Abstract interpretation on arbitrary text: the input is an unknown rest of which every parser may take anything it can '
            'take, or fail; numbers, characters and substrings taken from it are unknown values. Every reader of every type is run '
            'this way (readers it calls are summarised and examined themselves, until the set of readers that may succeed without '
            'taking anything is stable), then loading from text and from a file with every verdict of verification, then '
            'verification of every kind of entry with references that name any kind of entry or none, and writing every type. No '
            'path may reach a panic: unwrap, expect, index, slice, arithmetic overflow on a number that was read, unreachable, '
            'assertion, or a repetition whose body succeeds without taking anything.')
