"""P05: when loading a file succeeds."""
import grammar as G
import natives
import domains
import rule_text
import rule_store
from interp import *

VER = '::traits::ifc_type::IfcVerify'


def model(J, F, n):
    s = rule_store.Store(J, n)
    ifc = F.find_adt('IFC')
    fs = {}
    for f, t in F.fields(('adt', ifc, ())):
        fs[f] = s.cell.get() if t == s.DM else J.sym('v.' + f, t)
    return s, Obj(ifc, 'IFC', fs)


def p05(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    IFC = ('adt', F.find_adt('IFC'), ())
    ents = rule_text.entity_types(F)
    pick = [t for t in ents if F.show(t) in ('Organization', 'Dummy')]
    I.dyn_types = lambda v: pick
    strf = [im for im in F.impls_by_trait.get('std::str::FromStr', []) if im['self'] == IFC]
    ff = I.find_method(IFC, 'from_file')
    if not strf or ff is None:
        ctx.anchor_missing('loading a model from text / from a file')
        return 'load'
    strf = strf[0]['imap']['from_str'][0]
    calls, vals = [], []
    opened = []

    def verify(J, selfty, c):
        v = J.deref(c.args[0])
        name = v.name.rstrip('!') if isinstance(v, Sym) else J.show(v)
        vals.append(v)
        last = J.data.get('only')
        good = last is not None and not rule_store.same_entry(J, last, v) or J.choose(2, 'verify ' + name) == 0
        calls.append((name, good, J.deref(c.args[1])))
        return ok(UNIT) if good else err(Opaque('verify'))
    I.trait_hooks[(VER, 'verify_id_types')] = verify

    def text_of(J, m, tail):
        J.data['atomic'] = lambda u: u != IFC and F.show(u) != 'Footer' and rule_text.roundtrip.implements_parse(F, u)
        J.data['ts_whole'] = True
        J.data['string_value'] = lambda J, name: mktxt(['IFCUNKNOWN(', domains.dummy_string(J, name, (0,))]) if name.endswith('.s') else None
        f = Fmt()
        J.display(m, f)
        return mktxt(list(G.pieces(mktxt(f.out))) + ([tail] if tail else []))

    def judge(J, s, m, r, tail, unreadable=False):
        r = J.deref(r)
        var = r.var if isinstance(r, Obj) else J.variant(r)
        if unreadable:
            return None if var == 'Err' else 'an unreadable file is loaded'
        garbage = bool(tail.strip())
        allok = all(g for _, g, _ in calls)
        if var == 'Ok':
            if garbage:
                return 'text after the end of the file is accepted: %r' % tail
            if not allok:
                return 'loaded although the references of %s are wrong' % [n for n, g, _ in calls if not g]
            for _, e in s.ents:
                if not any(rule_store.same_entry(J, e, v) for v in vals):
                    return 'loaded without examining the references of an entry (%d entries)' % len(s.ents)
            got = J.deref(J.getfield(r, '0'))
            for f in m.f:
                if f == 'data':
                    s.cell.set(J.deref(J.getfield(got, f)))
                    p = s.unchanged()
                    if p:
                        return 'the loaded model differs: ' + p
                elif not J.same(m.f[f], J.getfield(got, f)):
                    return 'the loaded %s differs' % f
            return None
        if not garbage and allok:
            return 'a readable model without wrong references is refused (%d entries)' % len(s.ents)
        for n, g, ifc in calls:
            s.cell.set(J.deref(J.getfield(ifc, 'data')))
            if s.unchanged():
                return 'the references of %s are verified against another set of entries' % n
        return None

    def case(kind, key, body):
        n = 0
        for k, r in I.paths(body):
            n += 1
            if k == 'undecided':
                ctx.undecided(kind, key, r)
            elif k == 'panic':
                ctx.bad(kind, key, '%s: panics: %s' % (key, r))
            elif r:
                ctx.bad(kind, key, '%s: %s' % (key, r))
            else:
                ctx.good(kind, key)
        ctx.count('paths', n)

    sizes = (0, 1, 2, 3) if ctx.tier == 'quick' else (0, 1, 2, 3, 4)
    for n in sizes:
        for tail in ('', '\n', ' \n\n', 'X', '\nDATA;', '\nISO-10303-21;', '#1=IFCWALL();', ';', '0'):
            def body(J):
                del calls[:], vals[:]
                I.dyn_types = lambda v: pick if n < 3 and tail in ('', '\n', 'X') else pick[:1]
                s, m = model(J, F, n)
                t = text_of(J, m, tail)
                r = J.run_fn(F.fns[strf], {}, [Ref(Cell(t), 0)])
                return judge(J, s, m, r, tail)
            case('text', '%d entries followed by %r' % (n, tail), body)
    for n in F.long():
        def body(J):
            del calls[:], vals[:]
            I.dyn_types = lambda v: pick[:1]
            s, m = model(J, F, n)
            J.data['only'] = s.ents[-1][1]
            return judge(J, s, m, J.run_fn(F.fns[strf], {}, [Ref(Cell(text_of(J, m, '')), 0)]), '')
        case('text', '%d entries' % n, body)
    PB = ('ref', STR, 0)
    for n in sizes[:3]:
        def body(J):
            del calls[:], vals[:], opened[:]
            s, m = model(J, F, n)
            t = text_of(J, m, '')
            path = Sym('path', STR)
            bad = []

            def read(K, c):
                opened.append(K.deref(c.args[0]))
                if K.choose(2, 'readable') == 1:
                    bad.append(1)
                    return err(Opaque('io'))
                return ok(t)
            J.data['read_to_string'] = read
            r = J.run_fn(F.fns[ff[0]], dict(zip(F.fns[ff[0]]['gen'], [PB])), [Ref(Cell(path), 0)])
            if len(opened) != 1 or not J.same(opened[0], path):
                return 'not exactly the given file is read: %r' % (opened,)
            return judge(J, s, m, r, '', bool(bad))
        case('file', 'file with %d entries' % n, body)
    ctx.floor('text', 36)
    ctx.floor('file', 6)
    ctx.fns |= I.fn_used
    ctx.assumptions += rule_text.ASSUME[:1] + ['the readers of header, data section and footer are covered by P01/P02',
                                               'what verification of one entry answers is covered by P04']
    return ('Abstract interpretation of loading from text and from a file on models with 0..3 arbitrary entries; the '
            'verdict of verifying each entry is an unknown that is split, as is whether the file can be read. Loading must succeed '
            'exactly when nothing but white space follows the model and every entry verifies, must verify every entry against the '
            'complete model, and must return that model.')
