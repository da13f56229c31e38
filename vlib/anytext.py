"""Parsers on arbitrary text: the input is an unknown rest (a hole of kind
'top'); every parser may take what it can from it or fail."""
import grammar as G
from interp import *
import natives


def top(I):
    n = I.fresh.get('input', 0)
    I.fresh['input'] = n + 1
    return Hole(Sym('input%d' % n, STR), 'top')


def is_top(p):
    return isinstance(p, Hole) and p.conv == 'top'


def at_top(I, inp):
    s = G.stm(I, inp)
    return bool(s.ps) and is_top(s.ps[0])


def advance(I, h, ps, sure):
    """the rest after `ps` was taken from the rest `h`"""
    t = top(I)
    I.data.setdefault('taken', {})[t.v.name] = (h, tuple(ps), sure)
    return t


def back(I, h, start):
    """pieces taken between two rests, whether something surely was"""
    out, sure = [], False
    while h.v.name != start.v.name:
        x = I.data.get('taken', {}).get(h.v.name)
        if x is None:
            return None
        h, ps, s = x
        out[0:0] = ps
        sure |= s
    return out, sure


def text(I, chars, empty=True, n=None):
    """unknown text over a class of characters"""
    k = I.fresh.get('text', 0)
    I.fresh['text'] = k + 1
    v = Sym('text%d' % k, STR)
    I.data[('cls', v.name)] = (frozenset(chars), empty)
    if n is not None:
        I.data[('len', v.name)] = n
    return Hole(v, 'display')


ANY = frozenset(G.ANYTEXT | set(G.WS) | {'\\', "'"})


def literal(I, h, lit):
    """rest after the literal, or None"""
    if I.choose(2, '%s at %s' % (lit, h.v.name)) == 1:
        return None
    return advance(I, h, (lit,), True)


def scan(I, h, pred, lo, hi):
    chars = frozenset(ch for ch in ANY if G.charset_has(I, pred, ch))
    lo = lo or 0
    if lo and I.choose(2, 'taken at %s' % h.v.name) == 1:
        return None
    if not chars:
        return (mktxt(['']), h) if not lo else None
    if hi is not None and hi == lo and hi <= 64:
        ps = tuple(text(I, chars, False, 1) for _ in range(hi))
    else:
        ps = (text(I, chars, not lo),)
    return mktxt(list(ps)), advance(I, h, ps, lo > 0)


def char(I, h, pred):
    chars = frozenset(ch for ch in ANY if G.charset_has(I, pred, ch))
    if not chars or I.choose(2, 'character at %s' % h.v.name) == 1:
        return None
    p = text(I, chars, False, 1)
    return mktxt([p]), advance(I, h, (p,), True)


def number(I, h, t):
    if I.choose(2, 'number at %s' % h.v.name) == 1:
        return None
    k = I.fresh.get('number', 0)
    I.fresh['number'] = k + 1
    v = Sym('number%d' % k, t)
    return v, advance(I, h, (Hole(v, 'display'),), True)


def value(I, h, t):
    """a value of a type with its own reader"""
    I.data.setdefault('lemmas', set()).add(t)
    may = t in I.__dict__.get('may_be_empty', ())
    c = I.choose(2, '%s at %s' % (I.F.show(t), h.v.name))
    if c == 1:
        return None
    k = I.fresh.get('value', 0)
    I.fresh['value'] = k + 1
    make = I.data.get('value_of')
    v = make(I, t, 'value%d' % k) if make else None
    if v is None:
        v = I.sym('value%d' % k, t)
    return v, advance(I, h, (Hole(v if isinstance(v, Sym) else Sym('value%d' % k, t), 'nt'),), not may)


def explore(I, p):
    """outcomes of a parser on an arbitrary rest:
    list of (ok?, value, anything consumed for sure?)"""
    cache = I.__dict__.setdefault('explored', {})
    k = key(I, p)
    if k is not None and k in cache:
        outs, lem = cache[k]
        I.data.setdefault('lemmas', set()).update(lem)
        return outs
    outs, seen = [], set()
    lemmas = set()

    def body(J):
        # names of the enclosing path stay valid
        J.data.update(keep)
        J.fresh.update(fresh)
        h = top(J)
        inp = Ref(Cell(G.Stm((h,))), 1)
        r = G.run(J, p, inp)
        lem = J.data.get('lemmas', set())
        if not G.is_ok(r):
            return (False, not G.backtrack(r), False, lem)
        ps = G.norm_stm(J, G.stm(J, inp)).ps
        sure = not (len(ps) == 1 and is_top(ps[0])) or (back(J, ps[0], h) or (0, True))[1]
        if not ps:
            sure = False
        return (True, r.f['0'], sure, lem)
    keep = {k: v for k, v in I.data.items() if isinstance(k, tuple) or k in ('cls_of',)}
    N = I.__dict__['explorations'] = I.__dict__.get('explorations', 0) + 1
    fresh = dict(I.fresh)
    fresh.update({k: 100000 * N for k in ('input', 'text', 'number', 'value', 'rounds')})
    for kind, r in I.paths(body):
        if kind == 'panic':
            raise Panic('%s' % r)
        if kind == 'undecided':
            raise Undecided(r)
        lemmas |= r[3]
        try:
            s = (r[0], I.show(r[1]) if r[0] else r[1], r[2])
        except Exception:
            s = (r[0], repr(r[1]), r[2])
        if s not in seen:
            seen.add(s)
            outs.append(r[:3])
    if k is not None:
        cache[k] = (outs, lemmas)
    I.data.setdefault('lemmas', set()).update(lemmas)
    return outs


def bare(env):
    while env is not None:
        if env.d:
            return False
        env = env.up
    return True


def key(I, p):
    """identity of a parser that depends on nothing but the code"""
    q = p
    while isinstance(q, Ref):
        q = q.p.get()
    if isinstance(q, G.Pz):
        if q.name == 'nt':
            return ('nt', q.data)
        d = q.data
        if d is None:
            return None
        return (q.name, key(I, d))
    if isinstance(q, (str, int)) or q is None:
        return q
    if isinstance(q, (tuple, list)):
        ks = tuple(key(I, x) for x in q)
        return None if any(x is None and y is not None for x, y in zip(ks, q)) else ('t',) + ks
    if isinstance(q, (Tup, Seq)):
        return key(I, tuple(q.items))
    if isinstance(q, FnV):
        return ('fn', q.f['d'], repr(q.f.get('a')))
    if isinstance(q, PyFn):
        return ('py', id(q)) if q is G.ANYCHAR or q is G.WSPRED else None
    if isinstance(q, Clo):
        return ('clo', id(q.node), tuple(sorted((k, I.F.show(v)) for k, v in q.sub.items()))) if bare(q.env) else None
    return None


def loop(I, p, lo, acc, inp, g=None, sep=None):
    """a repetition on an arbitrary rest: one arbitrary round is examined, the
    result is an unknown collection of what the rounds give"""
    h = G.stm(I, inp).ps[0]
    what = 'separated' if sep is not None else 'repeat_till' if g is not None else 'repeat'
    outs = explore(I, p)
    if what != 'separated' and any(o[0] and not o[2] for o in outs):
        G.nonprogress(I, what)
    tails = [(True, UNIT, False)]
    if sep is not None:
        so = explore(I, sep)
        if any(o[0] and not o[2] for o in so):
            G.nonprogress(I, what)
    if g is not None:
        tails = explore(I, g)
    tails = [t for t in tails if t[0]]
    n = len(tails)
    k = I.choose(n + 1, 'rounds at %s' % h.v.name)
    if k == n:
        G.setstm(inp, G.Stm((advance(I, h, (text(I, ANY),), False),)))
        return G.fail()
    t = tails[k]
    G.setstm(inp, G.Stm((advance(I, h, (text(I, ANY),), t[2] or lo > 0),)))
    v = unknown(I, acc)
    return ok(v) if g is None else ok(Tup((v, t[1])))


def unknown(I, acc):
    if acc.n == 'String':
        return mktxt([text(I, ANY)])
    if acc.n == 'tuple':
        return UNIT
    k = I.fresh.get('rounds', 0)
    I.fresh['rounds'] = k + 1
    return I.sym('rounds%d' % k, acc.t)
