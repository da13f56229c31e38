"""Layout of printed records: attributes, kinds of value, tokens, read off the
printing code by abstract interpretation."""
import grammar as G
import natives
import roundtrip
from interp import *

INTS = {'usize', 'isize', 'i64', 'u64', 'i32', 'u32', 'i16', 'u16', 'i8', 'u8', 'i128', 'u128'}


def texts(I, t, atomic, make=None):
    """[(pieces)] of every way a value of the type is printed; raises Undecided"""
    out = []

    def body(J):
        J.data['atomic'] = atomic
        v = make(J) if make else J.sym('v', t)
        f = Fmt()
        natives._call_display(J, v, t, f) if isinstance(v, Sym) else J.display(v, f)
        return tuple(G.pieces(mktxt(f.out)))
    for k, r in I.paths(body):
        if k != 'ok':
            raise Undecided('printing %s: %s' % (I.F.show(t), r))
        if r not in out:
            out.append(r)
    return out


def split(ps):
    """pieces cut at the commas outside parentheses and quotes"""
    parts, cur, depth, quote = [], [], 0, False
    for p in ps:
        if not isinstance(p, str):
            cur.append(p)
            continue
        s = ''
        for ch in p:
            if ch == "'":
                quote = not quote
            elif not quote and ch == '(':
                depth += 1
            elif not quote and ch == ')':
                depth -= 1
            elif not quote and ch == ',' and depth == 0:
                if s:
                    cur.append(s)
                parts.append(cur)
                cur, s = [], ''
                continue
            s += ch
        if s:
            cur.append(s)
    parts.append(cur)
    return parts


class Layout:
    def __init__(self, I):
        self.I = I
        self.F = I.F
        self.base_memo = {}
        self.kind_memo = {}

    def nt(self, u):
        return roundtrip.implements_parse(self.F, u)

    def is_base(self, u):
        """a group of attributes written into the records of its owner"""
        r = self.base_memo.get(u)
        if r is None:
            r = False
            try:
                old = self.I.lens
                self.I.lens = (1,)
                ts = texts(self.I, u, lambda w: w != u and self.nt(w))
                self.I.lens = old
                r = all(len(split(x)) > 1 and not isinstance(x[0], str) for x in ts)
            except Undecided:
                pass
            self.base_memo[u] = r
        return r

    def record(self, t):
        """(keyword, [(path, type)], tail) of an entity type"""
        I = self.I
        old = I.lens
        I.lens = (1,)
        try:
            ts = texts(I, t, lambda u: u != t and self.nt(u) and not self.is_base(u))
        finally:
            I.lens = old
        if len(ts) != 1:
            raise Undecided('%s is printed in %d ways' % (self.F.show(t), len(ts)))
        ps = list(ts[0])
        if not isinstance(ps[0], str) or '(' not in ps[0] or not isinstance(ps[-1], str):
            return None
        kw, rest = ps[0].split('(', 1)
        ps[0] = rest
        i = ps[-1].rfind(')')
        tail = ps[-1][i:]
        ps[-1] = ps[-1][:i]
        return kw.strip(), split([p for p in ps if p != '']), tail

    def kinds(self, t, depth=0):
        """set of kinds of text a value of the type is printed as"""
        if t in self.kind_memo:
            return self.kind_memo[t]
        if depth > 8:
            raise Undecided('nesting')
        out = set()
        old = self.I.lens
        self.I.lens = (2,)
        try:
            ts = texts(self.I, t, lambda w: w != t and self.nt(w))
        finally:
            self.I.lens = old
        for ps in ts:
            out |= self.kind(ps, depth)
        self.kind_memo[t] = frozenset(out)
        return self.kind_memo[t]

    def kind(self, ps, depth):
        ps = [p for p in ps if p != '']
        if len(ps) == 1 and not isinstance(ps[0], str):
            return self.hole(ps[0], depth)
        a = ps[0]
        z = ps[-1]
        if isinstance(a, str) and isinstance(z, str):
            if a[0] == "'" and z[-1] == "'":
                return {'T' if len(ps) > 1 or a.count("'") != 2 else 'T' + a}
            if len(ps) == 1 and a[0] == '.' and a[-1] == '.':
                return {a}
            if len(ps) == 1 and a in '$*':
                return {'?' if a == '$' else '*'}
            if len(ps) == 1 and a.lstrip('+-').isdigit():
                return {'I'}
            if a[0] == '(' and z[-1] == ')':
                inner = list(ps)
                inner[0] = inner[0][1:]
                inner[-1] = inner[-1][:-1]
                ks = set()
                for x in split([p for p in inner if p != '']):
                    ks |= self.kind(x, depth) if x else {'empty'}
                return {'[%s]' % ' '.join(sorted(ks))}
            if a.startswith('IFC') and '(' in a:
                return {'in place'} if z.endswith(');') else {'V' + a[:a.index('(')]}
        if a == '#' and len(ps) == 2:
            return {'#'} if self.hole(ps[1], depth) == {'I'} else {'#?'}
        if not isinstance(a, str) and len(ps) == 2 and z == '.' and self.hole(a, depth) == {'R'}:
            return {'R.'}
        return {'other:%r' % (tuple(ps),)}

    def hole(self, h, depth):
        t = h.v.ty if isinstance(h.v, Sym) else None
        if h.conv == 'nt':
            return set(self.kinds(t, depth + 1))
        n = I_name(h.v)
        if t is not None and t[0] == 'prim' and t[1] in INTS:
            return {'I'}
        if t is not None and t[0] == 'prim' and t[1] in ('f64', 'f32'):
            return {'R'} if h.conv == 'display' else {'R.'}
        if n.startswith('timestamp('):
            return {'I'}
        return {'other:%r' % h}


def I_name(v):
    return repr(v)
