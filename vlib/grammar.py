"""Abstract semantics of winnow parsers over abstract text.

The input of a parser is a stream of pieces: literal text and holes (the
printed form of an unknown value).  Parsers are the values the crate's own
code builds out of winnow's combinators; they are interpreted, on the abstract
stream, with winnow 0.6's semantics (ordered choice, backtracking, greedy
repetition)."""
from interp import *
from interp import norm_c
from natives import N, nat, D, build_map
import natives

ASCII = [chr(c) for c in range(32, 127)]
UMLAUTS = list('ÄäÖöÜüß')
OTHER = ['\u00e9', '\u20ac', '\u6f22']
WS = ' \t\r\n'
ANYTEXT = frozenset(ASCII + UMLAUTS + OTHER)


class Stm:
    """rest of the input"""
    __slots__ = ('ps',)

    def __init__(self, ps=()):
        self.ps = tuple(p for p in ps if p != '')

    def __repr__(self):
        return 'Stm' + repr(list(self.ps))


class Pz:
    """a parser value"""
    __slots__ = ('name', 'fn', 'data')

    def __init__(self, name, fn, data=None):
        self.name = name
        self.fn = fn
        self.data = data

    def __repr__(self):
        return 'parser<%s>' % self.name


BT = 'Backtrack'
CUT = 'Cut'


def fail(kind=BT):
    return err(Opaque('ErrMode', kind))


def is_ok(r):
    return r.var == 'Ok'


def stm(I, inp):
    v = inp
    while isinstance(v, Ref):
        v = v.p.get()
    if isinstance(v, str):
        return Stm((v,))
    if isinstance(v, Txt):
        return Stm(v.ps)
    if isinstance(v, Stm):
        return v
    raise Undecided('parser input %r' % (v,))


def setstm(inp, s):
    p = inp.p
    while isinstance(p.get(), Ref):
        r = p.get()
        if isinstance(r.p.get(), (Ref, Stm)):
            p = r.p
        else:
            break
    p.set(s)


def pieces(v):
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, Txt):
        return v.ps
    raise Undecided('text %r' % (v,))


# ------------------------------------------------------------ holes
INTS = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize')


def hole_kind(I, h):
    """'nt' | 'float' | 'int' | 'str' | 'ws' | 'other'"""
    if h.conv in ('nt', 'ws', 'top'):
        return h.conv
    v = h.v
    t = v.ty if isinstance(v, Sym) else None
    if t is not None:
        if t[0] == 'prim' and t[1] in ('f64', 'f32'):
            return 'float'
        if t[0] == 'prim' and t[1] in INTS:
            return 'int'
        if t in (STRING, STR) or t == ('ref', STR, 0):
            return 'str'
        if I.data.get(('cls', v.name)) is not None:
            return 'str'
    return 'other'


def cls(I, h):
    """(possible characters, may be empty) of a text hole"""
    v = h.v
    c = I.data.get(('cls', v.name))
    if c is not None:
        return c
    f = I.data.get('cls_of')
    if f is not None:
        c = f(I, v)
        if c is not None:
            return c
    return (ANYTEXT, True)


FLOATCH = frozenset('0123456789-Ni')


def first(I, h):
    """(set of possible first characters, may be empty)"""
    k = hole_kind(I, h)
    if k == 'float':
        return FLOATCH, False
    if k == 'int':
        return (frozenset('0123456789-') if h.v.ty[1].startswith('i') else frozenset('0123456789')), False
    if k == 'str':
        return cls(I, h)
    if k == 'ws':
        return frozenset(WS + '/'), True
    if k == 'top':
        return T.ANY, True
    if k == 'nt':
        t = h.v.ty
        if t[0] == 'dyn':
            t = I.dyn(h.v)
        return first_of_type(I, t)
    raise Undecided('first characters of %r' % (h,))


def first_of_type(I, t):
    cache = I.__dict__.setdefault('firstcache', {})
    if t in cache:
        return cache[t]
    chars = set()
    empty = False

    def run(J):
        J.data['atomic'] = I_atomic
        J.data['cls_of'] = I_cls
        v = J.sym('F', t)
        f = Fmt()
        natives._call_display(J, v, t, f) if isinstance(v, Sym) else J.display(v, f)
        res = set()
        for p in pieces(mktxt(f.out)):
            if isinstance(p, str):
                res.add(p[0])
                return frozenset(res), False
            c, e = first(J, p)
            res |= c
            if not e:
                return frozenset(res), False
        return frozenset(res), True

    I_atomic = I.data.get('atomic')
    I_cls = I.data.get('cls_of')
    for kind, r in I.paths(run):
        if kind == 'undecided':
            raise Undecided(r)
        if kind == 'ok':
            chars |= r[0]
            empty |= r[1]
    cache[t] = (frozenset(chars), empty)
    return cache[t]


def expand_hole(I, h):
    """printed form of an atomic value hole"""
    v = h.v
    t = v.ty
    if t[0] == 'dyn':
        t = I.dyn(v)
        v = I.sym(v.name + '!', t)
        if not isinstance(v, Sym):
            return pieces(I.to_text(v))
    memo = I.data.setdefault('expanded', {})
    r = memo.get(v.name)
    if r is None:
        f = Fmt()
        natives._call_display(I, v, t, f)
        r = memo[v.name] = pieces(mktxt(f.out))
    return r


def same_type_hole(I, p, t):
    if not isinstance(p, Hole) or p.conv != 'nt':
        return None
    v = p.v
    vt = v.ty
    if vt[0] == 'dyn':
        vt = I.dyn(v)
        if vt == t:
            return I.sym(v.name + '!', vt)
        return None
    return v if vt == t else None


# ------------------------------------------------------------ primitive matching
def match_lit(I, s, lit):
    """literal text; returns remaining Stm or None"""
    ps = list(s.ps)
    while lit:
        if not ps:
            return None
        p = ps[0]
        if isinstance(p, str):
            n = min(len(p), len(lit))
            if p[:n] != lit[:n]:
                return None
            lit = lit[n:]
            ps[0] = p[n:]
            if not ps[0]:
                ps.pop(0)
            continue
        if p.conv == 'top':
            r = T.literal(I, p, lit)
            return None if r is None else Stm([r] + ps[1:])
        chars, empty = first(I, p)
        if lit[0] not in chars and not empty:
            return None
        k = hole_kind(I, p)
        if k == 'nt':
            ps[0:1] = expand_hole(I, p)
            continue
        if k == 'ws':
            ps[0:1] = expand_ws(I, p)
            continue
        if lit[0] not in chars and empty:
            # matches only if the hole is empty and the literal follows
            r = match_lit(I, Stm(ps[1:]), lit)
            if r is None:
                return None
            if isinstance(p.v, Sym) and I.isempty(p.v):
                ps.pop(0)
                continue
            return None
        if k == 'int' or k == 'float':
            # a literal that starts like a number
            raise Undecided('literal %r against number' % lit)
        r = match_lit(I, Stm(ps[1:]), lit) if empty else None
        # the unknown text could start with the literal
        if I.decide('starts_with(%s,%r)' % (I.show(p.v), lit[0])):
            raise Undecided('literal %r against unknown text %r' % (lit, p))
        if r is not None and I.isempty(p.v):
            ps.pop(0)
            continue
        return None
    return Stm(ps)


def ws_tokens(I, p):
    """choose what an optional-whitespace hole stands for"""
    key = ('ws', p.v.name)
    r = I.data.get(key)
    if r is None:
        opts = I.data.get('ws_options') or ('', ' ', '\n\t ', '/* c , ) ; \' */', ' /**/ ')
        r = I.data[key] = opts[I.choose(len(opts), p.v.name)]
    return r


def expand_ws(I, p):
    r = ws_tokens(I, p)
    return (r,) if r else ()


def norm_stm(I, s):
    """resolve leading whitespace holes"""
    ps = list(s.ps)
    while ps and isinstance(ps[0], Hole) and ps[0].conv == 'ws':
        ps[0:1] = expand_ws(I, ps[0])
    return Stm(ps)


def pred_on(I, pred, chars):
    """evaluate a character predicate on every character of a set -> set of outcomes"""
    out = set()
    for ch in sorted(chars):
        out.add(charset_has(I, pred, ch))
    return out


def charset_has(I, pred, ch):
    p = D(I, pred)
    if isinstance(p, str):
        return ch in p if len(p) != 1 else ch == p
    if isinstance(p, (Clo, FnV, PyFn)):
        return I.truth(I.callv(p, [ch], ('prim', 'bool')))
    if isinstance(p, (Seq, Tup)):
        return any(charset_has(I, x, ch) for x in p.items)
    if isinstance(p, Obj) and p.adt == 'Range':
        lo, hi = p.f['lo'], p.f['hi']
        if p.var == 'RangeFull':
            return True
        if isinstance(lo, str) and ch < lo:
            return False
        if hi is None:
            return True
        return ch < hi
    raise Undecided('character set %r' % (p,))


def take_while(I, s, pred, lo, hi, expand_nt=True):
    """returns (Txt taken, Stm rest) or None"""
    taken = []
    n = 0
    exact = True
    s = norm_stm(I, s)
    ps = list(s.ps)
    while ps:
        p = ps[0]
        if isinstance(p, str):
            i = 0
            while i < len(p) and (hi is None or n < hi) and charset_has(I, pred, p[i]):
                i += 1
                n += 1
            taken.append(p[:i])
            if i < len(p):
                ps[0] = p[i:]
                break
            ps.pop(0)
            continue
        k = hole_kind(I, p)
        if k == 'top':
            r = T.scan(I, p, pred, max(0, (lo or 0) - n), hi if hi is None else hi - n)
            if r is None:
                return None
            taken.append(r[0])
            return mktxt([natives.str_pieces(I, x) for x in taken]), Stm([r[1]] + ps[1:])
        if k in ('nt', 'ws'):
            c, e = first(I, p)
            if not e:
                o = pred_on(I, pred, c)
                if o == {False}:
                    break
            ps[0:1] = expand_hole(I, p) if k == 'nt' else expand_ws(I, p)
            continue
        if k == 'str':
            c, e = cls(I, p)
        elif k == 'int':
            c, e = first(I, p)
        elif k == 'float':
            c, e = frozenset('0123456789-.NaifE+'), False
        else:
            raise Undecided('take_while over %r' % (p,))
        o = pred_on(I, pred, c)
        if o == {True} or not c:
            if hi is not None:
                ln = I.data.get(('len', p.v.name if isinstance(p.v, Sym) else None))
                if ln is None:
                    raise Undecided('bounded take over unknown text')
                if n + ln > hi:
                    if n == hi or ln == 1:
                        break
                    raise Undecided('bounded take inside an unknown text')
                n += ln
            else:
                n += 0 if e else 1
            exact = False
            taken.append(Txt((p,)))
            ps.pop(0)
            continue
        if o == {False}:
            if e:
                # taken only if empty
                if I.isempty(p.v):
                    ps.pop(0)
                    continue
            break
        # mixed: some texts are cut short here
        if I.decide('cut(%s)' % I.show(p.v)):
            raise Cut(p)
        taken.append(Txt((p,)))
        ps.pop(0)
    if lo and n < lo and (exact or n < lo):
        if not exact and lo == 1:
            if not I.decide('nonempty(%s)' % I.show(mktxt(taken))):
                return None
        else:
            return None
    return mktxt(taken), Stm(ps)


class Cut(Panic):
    """an unknown text may be split by a scanner"""

    def __init__(self, p):
        Panic.__init__(self, 'text %r can contain a character that ends the scan' % (p,))


# ------------------------------------------------------------ running parsers
def run(I, p, inp):
    """apply parser p to the input place; Result value"""
    q = p
    while isinstance(q, Ref):
        q = q.p.get()
    if isinstance(q, Pz):
        return q.fn(I, inp)
    if isinstance(q, str):
        r = match_lit(I, stm(I, inp), q)
        if r is None:
            return fail()
        setstm(inp, r)
        return ok(tmp(q) if len(q) != 1 else q)
    if isinstance(q, Tup):
        out = []
        for x in q.items:
            r = run(I, x, inp)
            if not is_ok(r):
                return r
            out.append(r.f['0'])
        return ok(Tup(out))
    if isinstance(q, FnV):
        n = norm_c(q.f['d'])
        h = PRIM.get(n)
        if h is not None:
            return h(I, q, inp)
        return D(I, I.callv(q, [inp]))
    if isinstance(q, (Clo, PyFn)):
        return D(I, I.callv(q, [inp]))
    raise Undecided('parser %r' % (q,))


def backtrack(r):
    return D(I_dummy, r.f['0']).data != CUT


class _ID:
    @staticmethod
    def deref(v):
        while isinstance(v, Ref):
            v = v.p.get()
        return v


I_dummy = _ID


def choice(I, alts, inp):
    start = stm(I, inp)
    for a in alts:
        setstm(inp, start)
        r = run(I, a, inp)
        if is_ok(r) or not backtrack(r):
            return r
    return fail()


def rng(I, v):
    v = D(I, v)
    if isinstance(v, int):
        return v, v
    if isinstance(v, Obj) and v.adt == 'Range':
        lo = v.f['lo'] or 0
        hi = v.f['hi']
        if hi is not None:
            hi -= 1
        return lo, hi
    raise Undecided('repetition range %r' % (v,))


def weight(s):
    """progress measure"""
    return tuple(s.ps)


class Acc:
    def __init__(self, I, t):
        self.I = I
        self.t = t
        self.items = []
        self.n = t[1].split('::')[-1] if t[0] == 'adt' else t[0]

    def add(self, v):
        self.items.append(v)

    def done(self):
        if self.n in ('Vec', 'VecDeque'):
            return Seq(self.items)
        if self.n == 'String':
            return mktxt([natives.str_pieces(self.I, x) for x in self.items])
        if self.n == 'tuple':
            return UNIT
        if self.n in ('BTreeMap', 'HashMap', 'HashSet', 'BTreeSet'):
            return build_map(self.I, self.n, self.items)
        if self.n in ('prim',):
            return len(self.items)
        raise Undecided('accumulate into %s' % self.I.F.show(self.t))


def nonprogress(I, what):
    raise Panic('winnow assertion: `%s` parser consumed nothing' % what)


def do_repeat(I, p, lo, hi, acc, inp):
    q = D(I, p)
    if isinstance(q, Pz) and q.name == 'charset':
        r = take_while(I, stm(I, inp), q.data, lo, hi)
        if r is None:
            return fail()
        setstm(inp, r[1])
        acc.items = [r[0]] if acc.n == 'String' else [r[0]]
        return ok(acc.done())
    if T.at_top(I, inp):
        return T.loop(I, p, lo, acc, inp)
    n = 0
    while hi is None or n < hi:
        start = stm(I, inp)
        r = run(I, p, inp)
        if not is_ok(r):
            if not backtrack(r):
                return r
            if n < lo:
                return fail()
            setstm(inp, start)
            break
        if weight(stm(I, inp)) == weight(start):
            nonprogress(I, 'repeat')
        acc.add(r.f['0'])
        n += 1
        if n > 4000:
            raise Undecided('repeat')
    return ok(acc.done())


def charwise(I, p, g, h, rest):
    """every text of h's class is consumed one character at a time: for every
    character of the class, p takes exactly that character and g does not match
    there, whatever follows"""
    c, e = cls(I, h) if hole_kind(I, h) == 'str' else (frozenset('0123456789-.NaifE+'), False)
    old = I.data.get('nochoose')
    I.data['nochoose'] = True
    try:
        for ch in sorted(c):
            for tail in ((h,) + tuple(rest), tuple(rest)):
                try:
                    inp = Ref(Cell(Stm((ch,) + tail)), 1)
                    if is_ok(run(I, g, inp)):
                        raise Cut(h)
                    inp = Ref(Cell(Stm((ch,) + tail)), 1)
                    r = run(I, p, inp)
                except NoChoice:
                    raise Cut(h)
                left = norm_stm(I, stm(I, inp)).ps
                if not is_ok(r) or repr(left) != repr(norm_stm(I, Stm(tail)).ps) or \
                        mktxt([natives.str_pieces(I, r.f['0'])]) != ch:
                    raise Cut(h)
    finally:
        I.data['nochoose'] = old


def do_repeat_till(I, p, g, lo, hi, acc, inp):
    if T.at_top(I, inp):
        return T.loop(I, p, lo, acc, inp, g=g)
    n = 0
    q = D(I, p)
    scan = isinstance(q, Pz) and q.name == 'charset' and D(I, q.data) is ANYCHAR
    while True:
        start = stm(I, inp)
        if n >= lo:
            r = run(I, g, inp)
            if is_ok(r):
                return ok(Tup((acc.done(), r.f['0'])))
            if not backtrack(r):
                return r
        if hi is not None and n >= hi:
            return fail()
        setstm(inp, start)
        s = norm_stm(I, start)
        if s.ps and isinstance(s.ps[0], Hole):
            h = s.ps[0]
            k = hole_kind(I, h)
            if scan and k == 'nt':
                setstm(inp, Stm(expand_hole(I, h) + s.ps[1:]))
                continue
            if k in ('str', 'int', 'float') and (acc.n == 'String' or scan and acc.n == 'Vec'):
                charwise(I, p, g, h, s.ps[1:])
                acc.add(Txt((h,)) if acc.n == 'String' else Opaque('characters', h))
                n += 1
                setstm(inp, Stm(s.ps[1:]))
                continue
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        if weight(stm(I, inp)) == weight(start):
            nonprogress(I, 'repeat_till')
        acc.add(r.f['0'])
        n += 1
        if n > 20000:
            raise Undecided('repeat_till')


def do_separated(I, p, sep, lo, hi, acc, inp):
    if T.at_top(I, inp):
        return T.loop(I, p, lo, acc, inp, sep=sep)
    n = 0
    start = stm(I, inp)
    if hi == 0:
        return ok(acc.done())
    r = run(I, p, inp)
    if not is_ok(r):
        if not backtrack(r) or lo > 0:
            return r
        setstm(inp, start)
        return ok(acc.done())
    acc.add(r.f['0'])
    n = 1
    while hi is None or n < hi:
        start = stm(I, inp)
        r = run(I, sep, inp)
        if not is_ok(r):
            if not backtrack(r) or n < lo:
                return r
            setstm(inp, start)
            break
        if weight(stm(I, inp)) == weight(start):
            nonprogress(I, 'separated')
        r = run(I, p, inp)
        if not is_ok(r):
            if not backtrack(r) or n < lo:
                return r
            setstm(inp, start)
            break
        acc.add(r.f['0'])
        n += 1
    return ok(acc.done())


# ------------------------------------------------------------ combinator natives
def comb(*names):
    def d(f):
        for n in names:
            N[n] = f
        return f
    return d


def mk(name, data=None):
    def d(f):
        return Pz(name, f, data)
    return d


@comb('combinator::alt')
def _alt(I, c):
    a = D(I, c.args[0])
    if not isinstance(a, (Tup, Seq)):
        raise Undecided('alt of %r' % (a,))

    @mk('alt', a.items)
    def f(I, inp):
        return choice(I, a.items, inp)
    return f


def _pick(I, inp, ps, which):
    out = []
    for p in ps:
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        out.append(r.f['0'])
    return ok(which(out))


@comb('combinator::delimited')
def _delimited(I, c):
    a, b, d = c.args
    return Pz('delimited', lambda I, inp: _pick(I, inp, (a, b, d), lambda o: o[1]), (a, b, d))


@comb('combinator::preceded')
def _preceded(I, c):
    a, b = c.args
    return Pz('preceded', lambda I, inp: _pick(I, inp, (a, b), lambda o: o[1]), (a, b))


@comb('combinator::terminated')
def _terminated(I, c):
    a, b = c.args
    return Pz('terminated', lambda I, inp: _pick(I, inp, (a, b), lambda o: o[0]), (a, b))


@comb('combinator::separated_pair')
def _sp(I, c):
    a, s, b = c.args
    return Pz('separated_pair', lambda I, inp: _pick(I, inp, (a, s, b), lambda o: Tup((o[0], o[2]))), (a, s, b))


@comb('combinator::opt')
def _opt(I, c):
    p = c.args[0]

    def f(I, inp):
        start = stm(I, inp)
        r = run(I, p, inp)
        if is_ok(r):
            return ok(some(r.f['0']))
        if not backtrack(r):
            return r
        setstm(inp, start)
        return ok(NONE)
    return Pz('opt', f, (p,))


@comb('combinator::peek')
def _peek(I, c):
    p = c.args[0]

    def f(I, inp):
        start = stm(I, inp)
        r = run(I, p, inp)
        setstm(inp, start)
        return r
    return Pz('peek', f, (p,))


@comb('combinator::not')
def _not(I, c):
    p = c.args[0]

    def f(I, inp):
        start = stm(I, inp)
        r = run(I, p, inp)
        setstm(inp, start)
        if is_ok(r):
            return fail()
        return ok(UNIT) if backtrack(r) else r
    return Pz('not', f, (p,))


@comb('combinator::cut_err')
def _cut(I, c):
    p = c.args[0]

    def f(I, inp):
        r = run(I, p, inp)
        return r if is_ok(r) else fail(CUT)
    return Pz('cut_err', f, (p,))


@comb('combinator::backtrack_err')
def _bt(I, c):
    p = c.args[0]

    def f(I, inp):
        r = run(I, p, inp)
        return r if is_ok(r) else fail()
    return Pz('backtrack_err', f, (p,))


@comb('combinator::trace', 'Parser::context', 'Parser::by_ref', 'combinator::todo', 'Parser::complete_err')
def _trace(I, c):
    if c.f.get('n') in ('trace',):
        return c.args[1]
    return c.args[0]


@comb('combinator::repeat')
def _repeat(I, c):
    lo, hi = rng(I, c.args[0])
    p = c.args[1]
    t = c.targs[2] if len(c.targs) > 2 else None

    def f(I, inp):
        return do_repeat(I, p, lo, hi, Acc(I, t), inp)
    return Pz('repeat', f, (lo, hi, p))


@comb('combinator::repeat_till')
def _repeat_till(I, c):
    lo, hi = rng(I, c.args[0])
    p, g = c.args[1], c.args[2]
    t = c.targs[2] if len(c.targs) > 2 else None

    def f(I, inp):
        return do_repeat_till(I, p, g, lo, hi, Acc(I, t), inp)
    return Pz('repeat_till', f, (lo, hi, p, g))


@comb('combinator::separated')
def _separated(I, c):
    lo, hi = rng(I, c.args[0])
    p, s = c.args[1], c.args[2]
    t = c.targs[2] if len(c.targs) > 2 else None

    def f(I, inp):
        return do_separated(I, p, s, lo, hi, Acc(I, t), inp)
    return Pz('separated', f, (lo, hi, p, s))


@comb('Parser::map')
def _pmap(I, c):
    p, g = c.args
    if not is_parser(I, p):
        return NotImplemented

    def f(I, inp):
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        return ok(I.callv(g, [r.f['0']]))
    return Pz('map', f, (p, g))


def is_parser(I, p):
    return True


@comb('Parser::value')
def _pvalue(I, c):
    p, v = c.args

    def f(I, inp):
        r = run(I, p, inp)
        return ok(v) if is_ok(r) else r
    return Pz('value', f, (p, v))


@comb('Parser::default_value')
def _pdefault(I, c):
    p = c.args[0]
    t = c.targs[-1]

    def f(I, inp):
        r = run(I, p, inp)
        return ok(natives.default_of(I, t)) if is_ok(r) else r
    return Pz('value', f, (p,))


@comb('Parser::void')
def _pvoid(I, c):
    p = c.args[0]

    def f(I, inp):
        r = run(I, p, inp)
        return ok(UNIT) if is_ok(r) else r
    return Pz('void', f, (p,))


@comb('Parser::output_into', 'Parser::err_into')
def _poutinto(I, c):
    if c.f['n'] == 'err_into':
        return c.args[0]
    p = c.args[0]
    o2 = c.targs[-1]

    def f(I, inp):
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        v = r.f['0']
        return ok(natives.convert(I, v, I.type_of(v), o2, c))
    return Pz('output_into', f, (p,))


@comb('Parser::verify')
def _pverify(I, c):
    p, g = c.args

    def f(I, inp):
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        return r if I.truth(D(I, I.callv(g, [tmp(r.f['0'])]))) else fail()
    return Pz('verify', f, (p, g))


@comb('Parser::verify_map', 'Parser::try_map', 'Parser::parse_to')
def _pvm(I, c):
    if c.f['n'] == 'parse_to':
        raise Undecided('parse_to')
    p, g = c.args

    def f(I, inp):
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        v = D(I, I.callv(g, [r.f['0']]))
        return ok(I.expand(v).f['0']) if I.variant(v) in ('Some', 'Ok') else fail()
    return Pz('verify_map', f, (p, g))


@comb('Parser::and_then')
def _pand(I, c):
    p, g = c.args

    def f(I, inp):
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        v = D(I, r.f['0'])
        s = Ref(Cell(Stm(v.ps if isinstance(v, Txt) else (v,))), 1)
        return run(I, g, s)
    return Pz('and_then', f, (p, g))


@comb('Parser::flat_map')
def _pflat(I, c):
    p, g = c.args

    def f(I, inp):
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        return run(I, I.callv(g, [r.f['0']]), inp)
    return Pz('flat_map', f, (p, g))


@comb('Parser::take', 'Parser::recognize')
def _ptake(I, c):
    p = c.args[0]

    def f(I, inp):
        start = stm(I, inp)
        r = run(I, p, inp)
        if not is_ok(r):
            return r
        return ok(tmp(consumed(start, stm(I, inp), I)))
    return Pz('take', f, (p,))


def consumed(a, b, I=None):
    """text between two positions of the same input"""
    x, y = list(a.ps), list(b.ps)
    if I is not None and len(x) == len(y) == 1 and T.is_top(x[0]) and T.is_top(y[0]):
        r = T.back(I, y[0], x[0])
        if r is None:
            raise Undecided('consumed text')
        return mktxt(r[0])
    while x and y and x[-1] == y[-1]:
        x.pop()
        y.pop()
    if not y:
        return mktxt(x)
    if len(y) == 1 and isinstance(y[0], str) and x and isinstance(x[-1], str) and x[-1].endswith(y[0]):
        return mktxt(x[:-1] + [x[-1][:len(x[-1]) - len(y[0])]])
    raise Undecided('consumed text')


@comb('Parser::parse_next')
def _parse_next(I, c):
    return run(I, c.args[0], c.args[1])


@comb('Parser::parse_peek')
def _parse_peek(I, c):
    s = Ref(Cell(stm(I, c.args[1])), 1)
    r = run(I, c.args[0], s)
    return ok(Tup((stm(I, s), r.f['0']))) if is_ok(r) else r


@comb('Parser::parse')
def _pparse(I, c):
    s = Ref(Cell(stm(I, c.args[1])), 1)
    r = run(I, c.args[0], s)
    if not is_ok(r):
        return err(Opaque('ParseError', D(I, r.f['0']).data))
    left = norm_stm(I, stm(I, s)).ps
    if left and not (len(left) == 1 and T.is_top(left[0]) and I.choose(2, 'end') == 0):
        return err(Opaque('ParseError', 'eof'))
    return r


# ------------------------------------------------------------ token parsers
class _Any(PyFn):
    pass


ANYCHAR = PyFn(lambda ch: True, 'any')


def charset_parser(pred):
    def f(I, inp):
        s = norm_stm(I, stm(I, inp))
        if not s.ps:
            return fail()
        p = s.ps[0]
        if T.is_top(p):
            r = T.char(I, p, pred)
            if r is None:
                return fail()
            setstm(inp, Stm((r[1],) + s.ps[1:]))
            return ok(r[0])
        if isinstance(p, Hole):
            c, e = first(I, p)
            o = pred_on(I, pred, c)
            if o == {False} and not e:
                return fail()
            if hole_kind(I, p) == 'nt':
                setstm(inp, Stm(expand_hole(I, p) + s.ps[1:]))
                return f(I, inp)
            raise Undecided('one character of %r' % (p,))
        if not charset_has(I, pred, p[0]):
            return fail()
        setstm(inp, Stm((p[1:],) + s.ps[1:]))
        return ok(p[0])
    return Pz('charset', f, pred)


@comb('token::any')
def _tany(I, c):
    return run(I, charset_parser(ANYCHAR), c.args[0])


@comb('token::one_of')
def _oneof(I, c):
    return charset_parser(c.args[0])


@comb('token::none_of')
def _noneof(I, c):
    s = c.args[0]
    return charset_parser(PyFn(lambda ch: not charset_has(I, s, ch), 'none_of'))


@comb('token::literal', 'token::tag')
def _literal(I, c):
    return c.args[0]


@comb('token::take_while')
def _takewhile(I, c):
    lo, hi = rng(I, c.args[0])
    pred = c.args[1]

    def f(I, inp):
        r = take_while(I, stm(I, inp), pred, lo, hi)
        if r is None:
            return fail()
        setstm(inp, r[1])
        return ok(tmp(r[0]))
    return Pz('take_while', f, (lo, hi, pred))


@comb('token::take_till')
def _taketill(I, c):
    lo, hi = rng(I, c.args[0])
    pred = c.args[1]
    neg = PyFn(lambda ch: not charset_has(I, pred, ch), 'not')

    def f(I, inp):
        r = take_while(I, stm(I, inp), neg, lo, hi)
        if r is None:
            return fail()
        setstm(inp, r[1])
        return ok(tmp(r[0]))
    return Pz('take_till', f, (lo, hi, pred))


@comb('token::take')
def _ttake(I, c):
    n = c.args[0]

    def f(I, inp):
        r = take_while(I, stm(I, inp), ANYCHAR, n, n)
        if r is None:
            return fail()
        setstm(inp, r[1])
        return ok(tmp(r[0]))
    return Pz('take', f, (n,))


@comb('token::take_until')
def _takeuntil(I, c):
    lo, hi = rng(I, c.args[0])
    lit = D(I, c.args[1])

    def f(I, inp):
        taken = []
        if T.at_top(I, inp):
            r = T.scan(I, stm(I, inp).ps[0], ANYCHAR, 0, None)
            if I.choose(2, 'found') == 1:
                return fail()
            setstm(inp, Stm((r[1],)))
            return ok(tmp(r[0]))
        while True:
            s = stm(I, inp)
            if match_lit(I, s, lit) is not None:
                return ok(tmp(mktxt(taken)))
            if not s.ps:
                return fail()
            p = s.ps[0]
            if isinstance(p, Hole):
                k = hole_kind(I, p)
                if k == 'nt':
                    setstm(inp, Stm(expand_hole(I, p) + s.ps[1:]))
                    continue
                if k == 'ws':
                    setstm(inp, norm_stm(I, s))
                    continue
                ch, e = cls(I, p) if k == 'str' else (frozenset('0123456789-.NaifE+'), False)
                if lit[0] in ch:
                    raise Cut(p)
                taken.append(Txt((p,)))
                setstm(inp, Stm(s.ps[1:]))
            else:
                taken.append(p[0])
                setstm(inp, Stm((p[1:],) + s.ps[1:]))
    return Pz('take_until', f, (lo, hi, lit))


def p_multispace(lo):
    def h(I, q, inp):
        r = take_while(I, stm(I, inp), WSPRED, lo, None)
        if r is None:
            return fail()
        setstm(inp, r[1])
        return ok(tmp(r[0]))
    return h


WSPRED = PyFn(lambda ch: ch in WS, 'ws')
ALPHA = PyFn(lambda ch: ch.isalpha() and ord(ch) < 128, 'alpha')
DIGIT = PyFn(lambda ch: ch in '0123456789', 'digit')
ALNUM = PyFn(lambda ch: ch.isalnum() and ord(ch) < 128, 'alnum')


def p_class(pred, lo):
    def h(I, q, inp):
        r = take_while(I, stm(I, inp), pred, lo, None)
        if r is None:
            return fail()
        setstm(inp, r[1])
        return ok(tmp(r[0]))
    return h


def lead_number(I, s):
    """expand leading nt/ws holes until the head is text or a number"""
    s = norm_stm(I, s)
    while s.ps and isinstance(s.ps[0], Hole) and hole_kind(I, s.ps[0]) == 'nt':
        c, e = first(I, s.ps[0])
        if not e and not (c & frozenset('0123456789+-.NnIi')):
            return None
        s = Stm(expand_hole(I, s.ps[0]) + s.ps[1:])
    return s


_FLOAT_RE = re.compile(r'[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?|nan|[+-]?infinity|[+-]?inf', re.I)


def after_ok(I, ps, bad):
    """next character is none of `bad`"""
    if not ps:
        return True
    p = ps[0]
    if isinstance(p, str):
        return p[0] not in bad
    c, e = first(I, p)
    if c & frozenset(bad):
        return False
    return not e or after_ok(I, ps[1:], bad)


def p_float(I, q, inp):
    s = lead_number(I, stm(I, inp))
    if s is None or not s.ps:
        return fail()
    p = s.ps[0]
    if T.is_top(p):
        r = T.number(I, p, F64T)
        if r is None:
            return fail()
        setstm(inp, Stm((r[1],)))
        return ok(r[0])
    if isinstance(p, str):
        m = _FLOAT_RE.match(p)
        if not m:
            return fail()
        rest = s.ps[1:]
        if m.end() == len(p) and rest and not after_ok(I, rest, '0123456789.eE'):
            raise Undecided('number split over pieces')
        setstm(inp, Stm((p[m.end():],) + rest))
        return ok(float(m.group(0)))
    k = hole_kind(I, p)
    if k not in ('float', 'int'):
        if k == 'str':
            c, e = first(I, p)
            if not e and not (c & frozenset('0123456789+-.NnIi')):
                return fail()
        raise Undecided('number from %r' % (p,))
    rest = list(s.ps[1:])
    conv = p.conv
    dotted = False
    if rest and isinstance(rest[0], str) and rest[0].startswith('.'):
        if conv != 'display' or (k == 'float' and I.pc.get('eq(fract(%s),0.0)' % p.v.name) is not True):
            # "1.5." or "1E5.": the dot is not part of the number
            if k == 'float':
                pass
            else:
                dotted = True
        else:
            dotted = True
        if dotted:
            m = re.match(r'\.\d*(?:[eE][+-]?\d+)?', rest[0])
            if m.end() > 1 and m.group(0).strip('.0'):
                raise Undecided('digits appended to a printed number')
            rest[0] = rest[0][m.end():]
            rest = [x for x in rest if x != '']
    if not after_ok(I, rest, '0123456789eE' + ('' if dotted or k == 'float' else '.')):
        raise Undecided('number followed by number text')
    setstm(inp, Stm(rest))
    if k == 'int':
        return ok(I.app('as_f64', [p.v], F64T))
    if conv == 'display':
        return ok(p.v)
    m = re.match(r'(?:upper|lower)_exp\.(\d+)$', conv)
    if m and int(m.group(1)) >= 14:
        I.assumed.append('reals printed with %s significant digits' % (int(m.group(1)) + 1))
        return ok(p.v)
    if conv in ('upper_exp.None', 'lower_exp.None'):
        return ok(p.v)
    return ok(I.app('rounded<%s>' % conv, [p.v], F64T))


F64T = ('prim', 'f64')


def p_int(signed):
    def h(I, q, inp):
        t = None
        for a in q.f['a'][1:2]:
            t = a
        s = lead_number(I, stm(I, inp))
        if s is None or not s.ps:
            return fail()
        p = s.ps[0]
        if T.is_top(p):
            r = T.number(I, p, t or ('prim', 'i64'))
            if r is None:
                return fail()
            setstm(inp, Stm((r[1],)))
            return ok(r[0])
        if isinstance(p, str):
            m = re.match(r'[+-]?[1-9]\d*|0' if signed else r'[1-9]\d*|0', p)
            if not m:
                return fail()
            v = int(m.group(0))
            if t is not None and t[0] == 'prim':
                from interp import _range
                lo, hi = _range(t[1])
                if lo is not None and not lo <= v <= hi:
                    return fail()
            setstm(inp, Stm((p[m.end():],) + s.ps[1:]))
            return ok(v)
        k = hole_kind(I, p)
        if k == 'float':
            # the integral part only
            if I.decide('nan(%s)' % I.show(p.v)):
                return fail()
            setstm(inp, Stm((Hole(I.app('fracpart', [p.v], ('prim', 'f64tail')), 'tail'),) + s.ps[1:]))
            return ok(I.app('intpart', [p.v], t or ('prim', 'i64')))
        if k != 'int':
            if k == 'str':
                c, e = first(I, p)
                if not e and not (c & frozenset('0123456789+-')):
                    return fail()
            raise Undecided('integer from %r' % (p,))
        st = p.v.ty
        if not after_ok(I, s.ps[1:], '0123456789'):
            raise Undecided('number followed by digits')
        if t is not None and t[0] == 'prim' and t != st:
            from interp import _range
            lo, hi = _range(t[1])
            slo, shi = _range(st[1])
            if not (lo <= slo and shi <= hi):
                if not I.decide('fits(%s,%s)' % (p.v.name, t[1])):
                    return fail()
            v = p.v
        else:
            v = p.v
        if not signed and st[1].startswith('i'):
            if I.decide('negative(%s)' % p.v.name):
                return fail()
        setstm(inp, Stm(s.ps[1:]))
        return ok(v)
    return h


def p_fail(I, q, inp):
    return fail()


def p_eof(I, q, inp):
    s = norm_stm(I, stm(I, inp))
    if s.ps and T.is_top(s.ps[0]):
        return fail() if I.choose(2, 'end') else ok(tmp(''))
    return fail() if s.ps else ok(tmp(''))


def p_rest(I, q, inp):
    s = stm(I, inp)
    setstm(inp, Stm())
    if s.ps and T.is_top(s.ps[0]):
        return ok(tmp(mktxt([T.text(I, T.ANY)])))
    return ok(tmp(mktxt(s.ps)))


PRIM = {
    'ascii::float': p_float, 'ascii::dec_int': p_int(True), 'ascii::dec_uint': p_int(False),
    'ascii::multispace1': p_multispace(1), 'ascii::multispace0': p_multispace(0),
    'ascii::space0': p_class(PyFn(lambda ch: ch in ' \t', 'sp'), 0), 'ascii::space1': p_class(PyFn(lambda ch: ch in ' \t', 'sp'), 1),
    'ascii::digit1': p_class(DIGIT, 1), 'ascii::digit0': p_class(DIGIT, 0),
    'ascii::alpha1': p_class(ALPHA, 1), 'ascii::alpha0': p_class(ALPHA, 0),
    'ascii::alphanumeric1': p_class(ALNUM, 1), 'ascii::alphanumeric0': p_class(ALNUM, 0),
    'combinator::fail': p_fail, 'combinator::eof': p_eof, 'token::rest': p_rest,
    'combinator::empty': lambda I, q, inp: ok(UNIT),
    'token::any': lambda I, q, inp: run(I, charset_parser(ANYCHAR), inp),
}


def _install_prims():
    for n, h in PRIM.items():
        if n == 'token::any':
            continue

        def g(I, c, h=h):
            return h(I, FnV(c.f), c.args[0])
        N[n] = g


_install_prims()


def _scan_fix():
    # `any` used as a parser value inside repeat_till
    global do_repeat_till
    inner = do_repeat_till

    def f(I, p, g, lo, hi, acc, inp):
        q = D(I, p)
        if isinstance(q, FnV) and norm_c(q.f['d']) == 'token::any':
            p = charset_parser(ANYCHAR)
        return inner(I, p, g, lo, hi, acc, inp)
    do_repeat_till = f


_scan_fix()


# ------------------------------------------------------------ T::parse()
PARSE_TRAIT = '::parser::IFCParse'


def install(I):
    """make `T::parse()` a parser value that can consume a printed T as a whole"""
    def parse_hook(I, selfty, c):
        t = selfty
        if t is None or not I.F.concrete(t):
            raise Undecided('parser of unknown type')
        return nt_parser(I, t)
    I.trait_hooks[(PARSE_TRAIT, 'parse')] = parse_hook


def real_parser(I, t):
    """the parser value T::parse() builds"""
    r = I.F.impl_for(PARSE_TRAIT, [t])
    if r is None:
        raise Undecided('no IFCParse impl for %s' % I.F.show(t))
    k = r[0]['imap']['parse'][0]
    sub = dict(r[1])
    return I.run_fn(I.F.fns[k], sub, [])


def nt_parser(I, t):
    def f(I, inp):
        s = norm_stm(I, stm(I, inp))
        if s.ps and T.is_top(s.ps[0]):
            r = T.value(I, s.ps[0], t)
            if r is None:
                return fail()
            setstm(inp, Stm((r[1],)))
            return ok(r[0])
        if s.ps:
            v = same_type_hole(I, s.ps[0], t)
            if v is not None and follow_ok(I, t, s.ps[1:]):
                I.data.setdefault('lemmas', set()).add(t)
                setstm(inp, skip_trailing(I, t, Stm(s.ps[1:])))
                return ok(v)
            h = s.ps[0]
            if t == I.data.get('fallback') and isinstance(h, Hole) and h.conv == 'nt':
                # the reader of unknown entries is reached with an entry of a known kind
                setstm(inp, Stm(s.ps[1:]))
                return ok(Opaque('unknown entry', 'instead of %s' % I.F.show(h.v.ty)))
        d = I.data.get('ntdepth', 0)
        if d > 60:
            raise Undecided('parser recursion')
        I.data['ntdepth'] = d + 1
        try:
            return run(I, real_parser(I, t), inp)
        finally:
            I.data['ntdepth'] = d
    return Pz('nt', f, t)


def follow_ok(I, t, ps):
    """is the text after the hole one the lemma for T covers?"""
    if not ps:
        return True
    p = ps[0]
    if isinstance(p, str):
        return p[0] in FOLLOW
    if isinstance(p, Hole) and p.conv == 'ws':
        return True
    return False


FOLLOW = frozenset(',);\n')


def skip_trailing(I, t, s):
    """parsers of records swallow the whitespace after them; whether they do
    is part of the lemma (nothing is skipped here: the caller's grammar decides)"""
    return s


import anytext as T  # noqa: E402
