"""P13: references compare, order and hash by their number; global identifiers and time stamps have the standard's encoding."""
import grammar as G
import roundtrip
import rule_text
from interp import *

TABLE = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$'
USIZE = ('prim', 'usize')
# order of the written characters: how many of their low bits carry data, from which bits of the 16 bytes (most significant first)
STREAM = [(i, j) for i in range(16) for j in reversed(range(8))]
CHARS = [STREAM[0:2]] + [STREAM[2 + 6 * k:8 + 6 * k] for k in range(21)]


def p13(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    G.install(I)
    ID = ('adt', F.find_adt('Id'), ())
    types = [t for t in rule_text.entity_types(F)]
    T = next((t for t in types if F.show(t) == 'Organization'), types[0])
    TID = ('adt', F.find_adt('TypedId'), (T,))
    LESS, SAME, MORE = -1, 0, 1

    def make(J, ty, k):
        i = Obj(ID[1], 'Id', {'0': k})
        if ty == ID:
            return i
        return Obj(TID[1], 'TypedId', {n: (i if t == ID else Obj('std::marker::PhantomData', 'PhantomData', {}, ()))
                                       for n, t in F.fields(TID)}, (T,))

    def number(J, v):
        v = J.deref(v)
        for _ in range(4):
            if isinstance(v, Obj) and v.adt == TID[1]:
                v = J.deref(next(J.getfield(v, n) for n, t in F.fields(TID) if t == ID))
            elif isinstance(v, Obj) and v.adt == ID[1]:
                v = J.deref(J.getfield(v, '0'))
            else:
                return v
        return v

    def run(kind, key, what, body):
        """body returns None or what is wrong"""
        seen = False
        for k, r in I.paths(body):
            if k == 'ok':
                seen = True
                if r:
                    ctx.bad(kind, key, '%s: %s [%s]' % (what, r, roundtrip.trail(I)))
                    return
            elif k == 'panic':
                ctx.bad(kind, key, '%s: panics: %s [%s]' % (what, r.what, roundtrip.trail(I)))
                return
            else:
                ctx.undecided(kind, key, '%s' % (r,))
                return
        if seen:
            ctx.good(kind, what)

    # ---- comparison, order, hash
    def impl(tr, ty):
        for im in F.impls_by_trait.get(tr, []):
            s = im['self']
            if s[0] == 'adt' and s[1] == ty[1]:
                return im
        return None

    def body_of(im, n, ty):
        it = im['imap'].get(n)
        fn = F.fns.get(it[0]) if it else None
        if fn is None or fn['b'] is None:
            return None
        return fn, {im['gen'][0]: T} if im['gen'] else {}

    ORD = {'Less': LESS, 'Equal': SAME, 'Greater': MORE}

    def order(J, r):
        r = J.deref(r)
        if isinstance(r, Obj) and r.var == 'Some':
            r = J.deref(r.f['0'])
        return ORD.get(J.variant(r), r) if not isinstance(r, int) else r

    pairs = (('a', 'b', LESS), ('a', 'a', SAME), ('b', 'a', MORE))
    for ty in (ID, TID):
        nm = F.show(ty).split('<')[0]
        for tr, names in (('std::cmp::PartialEq', ('eq', 'ne')), ('std::cmp::Ord', ('cmp', 'max', 'min')),
                          ('std::cmp::PartialOrd', ('partial_cmp', 'lt', 'le', 'gt', 'ge'))):
            im = impl(tr, ty)
            if im is None:
                if tr != 'std::cmp::PartialOrd' and tr != 'std::cmp::Ord':
                    ctx.anchor_missing('%s of %s' % (tr, nm))
                continue
            for n in names:
                got = body_of(im, n, ty)
                if got is None:
                    continue
                fn, sub = got
                for x, y, c in pairs:
                    def cmp(J, x=x, y=y, c=c, n=n, fn=fn, sub=sub):
                        J.data['order'] = ['a', 'b']
                        J.data['gaps'] = {}
                        vx, vy = make(J, ty, Sym(x, USIZE)), make(J, ty, Sym(y, USIZE))
                        byval = n in ('max', 'min')
                        r = J.run_fn(fn, sub, [vx, vy] if byval else [tmp(vx), tmp(vy)])
                        if byval:
                            w = (x if c == MORE else y) if n == 'max' else (x if c == LESS else y)
                            return None if number(J, r) == Sym(w, USIZE) or getattr(number(J, r), 'name', None) == w else 'the other one is given'
                        if n in ('cmp', 'partial_cmp'):
                            r = order(J, r)
                            return None if r == c else 'numbers %s and %s compare %s' % (x, y, r)
                        w = {'eq': c == SAME, 'ne': c != SAME, 'lt': c == LESS, 'le': c != MORE, 'gt': c == MORE, 'ge': c != LESS}[n]
                        r = J.truth(r)
                        return None if r is w else '%s of %s numbers is %s' % (n, {LESS: 'rising', SAME: 'equal', MORE: 'falling'}[c], r)
                    run('comparison', '%s %s' % (nm, n), '%s::%s %s' % (nm, n, c), cmp)
        im = impl('std::hash::Hash', ty)
        if im is None:
            ctx.anchor_missing('Hash of %s' % nm)
        else:
            got = body_of(im, 'hash', ty)
            if got:
                def hsh(J, got=got):
                    fed = J.data['fed'] = []
                    v = make(J, ty, Sym('a', USIZE))
                    state = Ref(Cell(Obj('?Hasher', 'Hasher', {}, ())), 1)
                    J.run_fn(got[0], {**got[1], **{g: ('adt', '?Hasher', ()) for g in got[0]['gen'] if g not in got[1]}}, [tmp(v), state])
                    nums = [x for x in fed if isinstance(x, Sym) and x.name == 'a']
                    other = [x for x in fed if isinstance(x, Sym) and x.name != 'a' and not x.name.startswith('PhantomData')]
                    if not nums:
                        return 'the number is not hashed' if not fed else 'only %s is hashed' % fed
                    return 'also %s is hashed' % other[0].name if other else None

                def hook(J, selfty, c):
                    v = J.deref(c.args[0])
                    if isinstance(v, Obj) and (v.adt in (ID[1], TID[1]) or v.adt.endswith('PhantomData')):
                        return NotImplemented if v.adt in (ID[1], TID[1]) else UNIT
                    J.data.setdefault('fed', []).append(v)
                    return UNIT
                deep(I, ID, TID, hook, impl, body_of, T)
                run('comparison', '%s hash' % nm, '%s::hash' % nm, hsh)
                I.trait_hooks.pop(('std::hash::Hash', 'hash'), None)
        im = impl('std::clone::Clone', ty)
        got = im and body_of(im, 'clone', ty)
        if got:
            def cl(J, got=got):
                r = J.run_fn(got[0], got[1], [tmp(make(J, ty, Sym('a', USIZE)))])
                return None if getattr(number(J, r), 'name', None) == 'a' else 'the copy has another number'
            run('comparison', '%s clone' % nm, '%s::clone' % nm, cl)
        # text
        def show(J):
            J.data['atomic'] = lambda u: False
            f = Fmt()
            v = make(J, ty, Sym('a', USIZE))
            J.display(v, f)
            ps = G.pieces(mktxt(f.out))
            if len(ps) == 2 and ps[0] == '#' and not isinstance(ps[1], str) and isinstance(ps[1].v, Sym) and ps[1].v.name == 'a':
                return None
            return 'written as %r' % (ps,)
        run('number text', '%s written' % nm, '%s is written #number' % nm, show)

        def read(J):
            inp = Ref(Cell(G.Stm(('#', Hole(Sym('a', USIZE), 'display'), ','))), 1)
            r = G.run(J, G.real_parser(J, ty), inp)
            if not G.is_ok(r):
                return '#number is rejected'
            if getattr(number(J, r.f['0']), 'name', None) != 'a':
                return 'another number is read: %s' % J.show(r.f['0'])
            return None
        run('number text', '%s read' % nm, '%s is read from #number' % nm, read)

    # ---- conversions
    n = 0
    for im in F.impls_by_trait.get('std::convert::From', []):
        s, src = im['self'], im['ta'][1]
        for so, sr in ((ID, TID), (TID, ID)):
            if s[0] == 'adt' and s[1] == so[1] and src[0] == 'adt' and src[1] == sr[1]:
                n += 1

                def conv(J, im=im, sr=sr):
                    fn, sub = body_of(im, 'from', sr)
                    r = J.run_fn(fn, sub, [make(J, sr, Sym('a', USIZE))])
                    return None if getattr(number(J, r), 'name', None) == 'a' else 'the number becomes %s' % J.show(number(J, r))
                run('conversion', 'from %s' % F.show(sr).split('<')[0], 'from %s' % F.show(sr), conv)
    for name in ('new', 'id', 'id_or'):
        r = I.find_method(TID, name)
        if r is None:
            continue
        fn, b = F.fns[r[0]], r[1]

        def meth(J, name=name, fn=fn, b=b):
            a = make(J, ID, Sym('a', USIZE)) if name == 'new' else make(J, TID, Sym('a', USIZE))
            if name != 'new' and fn['ins'][0][0] == 'ref':
                a = tmp(a)
            r = J.deref(J.run_fn(fn, b, [a]))
            if name == 'id_or':
                if J.variant(r) != 'Id':
                    return 'no reference is made'
                r = J.deref(r.f['0'])
            return None if getattr(number(J, r), 'name', None) == 'a' else 'the number becomes %s' % J.show(number(J, r))
        run('conversion', 'TypedId %s' % name, 'TypedId::%s' % name, meth)

    # ---- global identifiers
    U = ('adt', F.find_adt('IfcGloballyUniqueId'), ())
    if U[1] is None:
        ctx.anchor_missing('IfcGloballyUniqueId')
        return ''
    table = list(TABLE)

    def gshow(J):
        J.data['atomic'] = lambda u: False
        f = Fmt()
        v = J.sym('g', U)
        J.display(v, f)
        ps = []
        for p in G.pieces(mktxt(f.out)):
            ps += list(p) if isinstance(p, str) else [p.v]
        if len(ps) != 24 or ps[0] != "'" or ps[-1] != "'":
            return 'not 22 characters in quotes: %r' % (ps,)
        names = set()
        for i, (p, bits) in enumerate(zip(ps[1:-1], CHARS)):
            if not (isinstance(p, Sym) and p.op == 'pick'):
                return 'character %d is %r' % (i + 1, p)
            tab, ix = p.args
            if ''.join(tab) != TABLE:
                return 'the characters are taken from another table: %s' % ''.join(tab)
            low = list(reversed(bits))
            for j, x in enumerate(ix.b):
                w = low[j] if j < len(low) else None
                if w is None:
                    if x != 0:
                        return 'bit %d of character %d is not 0' % (j, i + 1)
                    continue
                if not isinstance(x, tuple) or not x[0].endswith('.byte%d' % w[0]) or x[1] != w[1]:
                    return 'bit %d of character %d is %s instead of bit %d of byte %d' % (j, i + 1, x, w[1], w[0])
                names.add(x[0].rsplit('.', 1)[0])
        return 'several sources' if len(names) != 1 else None
    run('global identifier', 'written', 'all 128 bits are in the 22 characters the standard says', gshow)

    def text(J, n, k0=2):
        return [J.natives['__pick__'](J, TABLE, Bits([('c%d' % i, j) for j in range(6 if i else k0)] + [0] * (2 if i else 8 - k0), 'u8'))
                for i in range(n)]

    def gread(J):
        inp = Ref(Cell(G.Stm(("'",) + tuple(Hole(x, 'display') for x in text(J, 22)) + ("'", ','))), 1)
        r = G.run(J, G.real_parser(J, U), inp)
        if not G.is_ok(r):
            return 'a text of 22 characters of the table is rejected'
        v = J.deref(J.getfield(J.deref(r.f['0']), '0'))
        if not (isinstance(v, Sym) and v.op in ('from_bytes', 'app') or isinstance(v, Sym) and v.args):
            raise Undecided('value %r' % (v,))
        s = v.args[-1]
        if not isinstance(s, Seq) or len(s.items) != 16:
            raise Undecided('bytes %r' % (s,))
        where = {}
        for i, bits in enumerate(CHARS):
            for j, w in enumerate(reversed(bits)):
                where[w] = ('c%d' % i, j)
        for i, b in enumerate(s.items):
            if not isinstance(b, (Bits, int)):
                raise Undecided('byte %r' % (b,))
            b = b if isinstance(b, Bits) else Bits.of(b, 'u8')
            for j in range(8):
                if b.b[j] != where[(i, j)]:
                    return 'bit %d of byte %d is %s instead of bit %d of character %d' % (j, i, b.b[j], where[(i, j)][1], int(where[(i, j)][0][1:]) + 1)
        return None
    run('global identifier', 'read', 'the 16 bytes are the bits of the 22 characters', gread)

    for n, label in ((21, 'shorter'), (23, 'longer')):
        def glen(J, n=n):
            inp = Ref(Cell(G.Stm(("'",) + tuple(Hole(x, 'display') for x in text(J, n)) + ("'", ','))), 1)
            r = G.run(J, G.real_parser(J, U), inp)
            return 'a text of %d characters is accepted' % n if G.is_ok(r) else None
        run('global identifier', label, 'a text of %d characters is rejected' % n, glen)
    for c in "-+/=.,# '":
        def gch(J, c=c):
            inp = Ref(Cell(G.Stm(("'0123" + c + "56789ABCDEFGHIJKL',",))), 1)
            r = G.run(J, G.real_parser(J, U), inp)
            return 'accepted' if G.is_ok(r) else None
        run('global identifier', 'outside the table', 'a text with %r is rejected' % c, gch)

    # a new identifier is a fresh random one
    r = I.find_method(U, 'new_v4')
    if r is None:
        ctx.anchor_missing('IfcGloballyUniqueId::new_v4')
    else:
        def fresh(J):
            a = J.deref(J.getfield(J.deref(J.run_fn(F.fns[r[0]], r[1], [])), '0'))
            b = J.deref(J.getfield(J.deref(J.run_fn(F.fns[r[0]], r[1], [])), '0'))
            if not (isinstance(a, Sym) and a.op == 'v4' or isinstance(a, Sym) and 'v4' in a.name):
                return 'the identifier is %s, no random one' % J.show(a)
            return 'two calls give the same identifier' if J.same(a, b) else None
        run('global identifier', 'new', 'a new identifier is a new random one', fresh)

    # ---- time stamps
    TS = F.find_adt('IfcTimestamp')
    if TS is None:
        ctx.anchor_missing('IfcTimestamp')
    else:
        TS = ('adt', TS, ())

        def tshow(J):
            J.data['atomic'] = lambda u: False
            f = Fmt()
            J.display(J.sym('t', TS), f)
            ps = G.pieces(mktxt(f.out))
            v = ps[0].v if len(ps) == 1 and not isinstance(ps[0], str) else None
            if isinstance(v, Sym) and v.op == 'timestamp' and isinstance(v.args[0], Sym) and v.args[0].name == 't.0':
                return None
            return 'written as %r' % (ps,)
        run('time stamp', 'written', 'seconds since 1970 of its own date', tshow)

        def tread(J):
            inp = Ref(Cell(G.Stm((Hole(Sym('s', ('prim', 'i64')), 'display'), ','))), 1)
            r = G.run(J, G.real_parser(J, TS), inp)
            if not G.is_ok(r):
                return None if any(k.startswith('in_range') and v is False for k, v in J.pc.items()) else 'the number is rejected'
            v = J.deref(J.getfield(J.deref(r.f['0']), '0'))
            if isinstance(v, Sym) and v.op == 'from_timestamp' and getattr(v.args[0], 'name', None) == 's' and v.args[1] == 0:
                return None
            return 'read as %s' % J.show(v)
        run('time stamp', 'read', 'the date that many seconds after 1970', tread)
    ctx.floor('comparison', 20)
    ctx.floor('number text', 4)
    ctx.floor('conversion', 4)
    ctx.floor('global identifier', 14)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['uuid::Uuid::{from_bytes, into_bytes, new_v4} and std comparison, hashing of machine numbers follow their documentation',
                        'numbers, identifiers are arbitrary: all order relations of two numbers, all 2^128 identifiers bit by bit']
    return ('Abstract interpretation: comparison, order and hash of references on two symbolic numbers in every order relation; text and '
            'conversions with provenance of the number; encoding and decoding of global identifiers in a domain of symbolic bits, every bit '
            'compared with the place the standard gives it.')


def deep(I, ID, TID, hook, impl, body_of, T):
    """hash calls: own types run their own code, everything else is recorded"""
    def h(J, selfty, c):
        r = hook(J, selfty, c)
        if r is not NotImplemented:
            return r
        v = J.deref(c.args[0])
        ty = ID if v.adt == ID[1] else TID
        im = impl('std::hash::Hash', ty)
        got = body_of(im, 'hash', ty) if im else None
        if got is None:
            return NotImplemented
        fn, sub = got
        return J.run_fn(fn, {**sub, **{g: ('adt', '?Hasher', ()) for g in fn['gen'] if g not in sub}}, [c.args[0], c.args[1]])
    I.trait_hooks[('std::hash::Hash', 'hash')] = h

    def write(J, selfty, c):
        J.data.setdefault('fed', []).append(J.deref(c.args[1]))
        return UNIT
    for n in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i32', 'i64', 'isize'):
        I.trait_hooks[('std::hash::Hasher', 'write_' + n)] = write
