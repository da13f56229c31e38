"""Real arithmetic on unknown numbers and vectors, up to the laws of a field."""
from fractions import Fraction as Fr
from interp import *

AX = 'xyz'


def const(c):
    return {(): Fr(c)} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n))
            r[x] = r.get(x, 0) + c * d
    return {m: c for m, c in r.items() if c}


def key(p):
    return '+'.join('%s*%s' % (c, '*'.join(m)) for m, c in sorted(p.items())) or '0'


def isvec(v):
    t = v.ty if isinstance(v, Sym) else ('adt', v.adt, ()) if isinstance(v, Obj) else ('?',)
    return t[0] == 'adt' and t[1].split('::')[-1] in ('DVec2', 'DVec3')


def isquat(v):
    return isinstance(v, Sym) and v.ty[0] == 'adt' and v.ty[1].split('::')[-1] == 'DQuat'


def bare(J, v):
    """number or vector inside the crate's own wrappers"""
    for _ in range(10):
        v = J.deref(v)
        if isinstance(v, Sym) and v.ty[0] == 'adt' and not isvec(v) and not isquat(v):
            v = J.expand(v)
        if not isinstance(v, Obj) or isvec(v):
            return v
        n = v.adt.split('::')[-1]
        if n in ('OptionalParameter', 'Option') and '0' not in v.f:
            return v
        if '0' in v.f and len(v.f) == 1:
            v = v.f['0']
        else:
            return v
    return v


def poly(J, v):
    v = bare(J, v)
    if isinstance(v, bool):
        raise Undecided('a number')
    if isinstance(v, (int, float)):
        return const(Fr(v))
    if isinstance(v, Sym):
        o, a = v.op, v.args
        if o == 'add':
            return padd(poly(J, a[0]), poly(J, a[1]))
        if o == 'sub':
            return padd(poly(J, a[0]), poly(J, a[1]), -1)
        if o == 'neg':
            return padd({}, poly(J, a[0]), -1)
        if o == 'mul':
            return pmul(poly(J, a[0]), poly(J, a[1]))
        if o == 'sum':
            r = {}
            for x in a:
                r = padd(r, poly(J, x))
            return r
        if o == 'div':
            d = poly(J, a[1])
            if set(d) == {()}:
                return pmul(poly(J, a[0]), const(1 / d[()]))
            return {('(%s)/(%s)' % (key(poly(J, a[0])), key(d)),): Fr(1)}
        if o == 'part':
            return comp(J, a[0], AX.index(a[1]))
        if o and o.split('::')[-1] == 'dot':
            r = {}
            for i in range(dim(a[0])):
                r = padd(r, pmul(comp(J, a[0], i), comp(J, a[1], i)))
            return r
        return {(v.name,): Fr(1)}
    raise Undecided('a number: %s' % J.show(v)[:80])


def dim(v):
    t = v.ty[1] if isinstance(v, Sym) else v.adt
    return int(t[-1])


def comp(J, v, i):
    """i-th coordinate"""
    v = bare(J, v)
    if isinstance(v, Obj):
        return poly(J, v.f[AX[i]])
    if not isinstance(v, Sym):
        raise Undecided('a vector: %s' % J.show(v)[:80])
    o, a = v.op, v.args
    if o in ('add', 'sub'):
        return padd(comp(J, a[0], i), comp(J, a[1], i), 1 if o == 'add' else -1)
    if o == 'neg':
        return padd({}, comp(J, a[0], i), -1)
    if (o == 'mul' or o and o.split('::')[-1] == 'mul_vec3') and isquat(bare(J, a[0])):
        q, r = bare(J, a[0]), {}
        for j in range(3):
            r = padd(r, pmul({('turn(%s)%s%s' % (q.name, AX[i], AX[j]),): Fr(1)}, comp(J, a[1], j)))
        return r
    if o == 'mul':
        return pmul(*[comp(J, x, i) if isvec(bare(J, x)) else poly(J, x) for x in a])
    if o == 'div' and not isvec(bare(J, a[1])):
        d = poly(J, a[1])
        if set(d) == {()}:
            return pmul(comp(J, a[0], i), const(1 / d[()]))
    if o == 'DVec3::cross':
        j, k = (i + 1) % 3, (i + 2) % 3
        return padd(pmul(comp(J, a[0], j), comp(J, a[1], k)), pmul(comp(J, a[0], k), comp(J, a[1], j)), -1)
    if o in ('DVec3::normalize', 'DVec2::normalize'):
        w = unit(J, v)
        if all(set(x) <= {()} for x in w):
            n2 = sum(x.get((), 0) ** 2 for x in w)
            if n2 == 1:
                return w[i]
        return {('unit(%s).%s' % (','.join(map(key, w)), AX[i]),): Fr(1)}
    if o is None:
        return {('%s.%s' % (v.name, AX[i]),): Fr(1)}
    return {('%s.%s' % (v.name, AX[i]),): Fr(1)}


def vec(J, v):
    v = bare(J, v)
    if not isvec(v):
        raise Undecided('a vector: %s' % J.show(v)[:80])
    return [comp(J, v, i) for i in range(dim(v))]


def unit(J, v):
    """vector before its (repeated) normalisation"""
    v = bare(J, v)
    while isinstance(v, Sym) and v.op in ('DVec3::normalize', 'DVec2::normalize', 'DVec3::normalize_or_zero'):
        v = bare(J, v.args[0])
    return vec(J, v)


def vshow(w):
    return '(%s)' % ', '.join(key(x) for x in w)
