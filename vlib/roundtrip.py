"""Print/parse agreement: for a type T, the text its Display implementation
produces for an arbitrary value, followed by an arbitrary continuation, is fed
to T's parser; every abstract path must give back the same value and leave the
continuation."""
from interp import *
import grammar as G
import natives
from natives import D


def implements_parse(F, t):
    return F.impl_for(G.PARSE_TRAIT, [t]) is not None


def setup(I):
    G.install(I)


class Spec:
    """how unknown texts of particular fields look (documented domain)"""
    pass


def check_type(I, t, follows=(',', ')'), spec=None, parser=None, lens=(0, 1, 2), dyn=None, post=None, strings=None,
               lens_of=None, make=None, fallback=None, edit=None):
    """returns dict(paths, ok, problems=[...], undecided=[...], lemmas=set)"""
    F = I.F
    res = {'type': F.show(t), 'paths': 0, 'ok': 0, 'problems': [], 'undecided': [], 'lemmas': set()}
    old_lens, old_dyn = I.lens, I.dyn_types
    I.lens = lens
    I.dyn_types = dyn

    def atomic(u):
        return u != t and implements_parse(F, u)

    def body(J):
        J.data['atomic'] = atomic
        J.data['ts_whole'] = True
        J.data['string_value'] = strings
        J.data['fallback'] = fallback
        J.data['lens_of'] = lens_of
        if spec:
            J.data['cls_of'] = lambda v: spec(J, v)
        v = make(J) if make else J.sym('v', t)
        fol = follows[J.choose(len(follows), 'follow')]
        out = {'v': v}
        f = Fmt()
        if isinstance(v, Sym):
            natives._call_display(J, v, t, f)
        else:
            J.display(v, f)
        text = mktxt(f.out)
        out['text'] = text
        ps = G.pieces(text)
        if edit:
            ps = edit(J, ps)
            out['text'] = Txt(ps)
        inp = Ref(Cell(G.Stm(ps + ((fol,) if fol else ()))), 1)
        p = parser(J) if parser else G.real_parser(J, t)
        r = G.run(J, p, inp)
        if not G.is_ok(r):
            out['err'] = 'the parser rejects the text; rest of the input: %r' % (G.stm(J, inp),)
            return out
        rest = G.norm_stm(J, G.stm(J, inp))
        left = ''.join(p if isinstance(p, str) else repr(p) for p in rest.ps)
        if left != fol and not (fol.strip() == '' and left == ''):
            out['err'] = 'text left over: %r' % left
            return out
        got = r.f['0']
        if post:
            got = post(J, got)
        if not J.same(v, got):
            out['err'] = 'a different value comes back: %s' % diff(J, v, got)
        out['lem'] = J.data.get('lemmas', set())
        out['assumed'] = list(J.assumed)
        return out

    try:
        for kind, r in I.paths(body):
            res['paths'] += 1
            if kind == 'ok':
                res['lemmas'] |= r.get('lem', set())
                if 'err' in r:
                    res['problems'].append((repr(r['text']), r['err'], trail(I)))
                else:
                    res['ok'] += 1
            elif kind == 'panic':
                res['problems'].append(('', 'panic: %s' % r.what, trail(I)))
            else:
                res['undecided'].append('%s [%s]' % (r, trail(I)))
            if len(res['problems']) >= 40:
                break
    finally:
        I.lens, I.dyn_types = old_lens, old_dyn
    return res


def trail(I):
    return ' '.join('%s=%d' % (l, c) for n, c, l in I.trail)


def diff(I, a, b, path='value'):
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, Sym) and isinstance(b, Obj):
        try:
            a = I.expand(a)
        except Undecided:
            pass
    if isinstance(a, Obj) and isinstance(b, Obj) and a.adt == b.adt and a.var == b.var:
        for k in a.f:
            if k in b.f and not I.same(a.f[k], b.f[k]):
                return diff(I, a.f[k], b.f[k], path + '.' + k)
    if isinstance(a, Sym) and isinstance(I.refine.get(a.name), Seq):
        a = I.refine[a.name]
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            if not I.same(x, y):
                return diff(I, x, y, path + '[%d]' % i)
    return '%s is %s, reads back as %s' % (path, I.show(a), I.show(b))
