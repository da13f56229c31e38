"""P16: conversions, optional values and defaults carry exactly the value given."""
import geo
import grammar as G
import natives
import roundtrip
import rule_text
from interp import *

F64T = ('prim', 'f64')
PLAIN = {'f64', 'i64', 'bool', 'DVec2', 'DVec3', 'RealPrimitive', 'Id', 'TypedId', 'T', 'S', 'I', 'Option', 'IFC'}


def short(t):
    return t[1].split('::')[-1] if t[0] in ('adt', 'prim', 'param') and isinstance(t[1], str) else t[0]


def core(J, v):
    """the value inside wrappers of one field"""
    for _ in range(12):
        v = J.deref(v)
        if isinstance(v, Sym) and v.ty[0] == 'adt' and v.op is None and not geo.isvec(v):
            fs = J.fields_of(v.ty) if J.variants_of(v.ty) is None else None
            if fs is None or len([1 for n, t in fs if short(t) != 'PhantomData']) != 1:
                return v
            v = J.expand(v)
        if not isinstance(v, Obj) or geo.isvec(v):
            return v
        fs = [n for n in v.f if not (isinstance(v.f[n], Obj) and v.f[n].adt.endswith('PhantomData'))]
        if len(fs) != 1:
            return v
        v = v.f[fs[0]]
    return v


def p16(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    G.install(I)
    IFC = ('adt', F.find_adt('IFC'), ())

    def adt(n, *ts):
        a = F.find_adt(n)
        if a is None:
            ctx.anchor_missing(n)
        return ('adt', a, tuple(ts))

    def run(kind, key, what, body):
        seen = False
        for k, r in I.paths(body):
            if k == 'ok':
                seen = True
                if r:
                    ctx.bad(kind, key, '%s: %s [%s]' % (what, r, roundtrip.trail(I)))
                    return
            elif k == 'panic':
                ctx.bad(kind, key, '%s: panics: %s [%s]' % (what, r.what, roundtrip.trail(I)))
                return
            else:
                ctx.undecided(kind, key, '%s' % (r,))
                return
        if seen:
            ctx.good(kind, what)

    def call(J, ty, n, args):
        r = I.find_method(ty, n)
        if r is None:
            raise Undecided('no %s::%s' % (F.show(ty), n))
        return J.run_fn(F.fns[r[0]], r[1], args)

    types = rule_text.entity_types(F)
    named = {F.show(t): t for t in types}
    T = named.get('Organization', types[0])
    ID = adt('Id')

    # ---- conversions
    def body_of(im):
        it = im['imap'].get('from')
        return F.fns.get(it[0]) if it else None

    def holds(J, src, dst, given, got):
        d = short(dst)
        if d.startswith('Direction'):
            a, b = geo.unit(J, core(J, got)), geo.vec(J, given)
            if len(a) != len(b):
                return 'other number of coordinates'
            return None if a == b else 'points along %s, given %s' % (geo.vshow(a), geo.vshow(b))
        if geo.isvec(J.deref(given)):
            a, b = geo.vec(J, core(J, got)), geo.vec(J, given)
            return None if a == b else 'holds %s, given %s' % (geo.vshow(a), geo.vshow(b))
        if d == 'BoolPrimitive':
            t = J.truth(J.deref(given))
            f = Fmt()
            J.data['atomic'] = lambda u: False
            J.display(got, f)
            t2 = ''.join(x if isinstance(x, str) else '?' for x in G.pieces(mktxt(f.out)))
            return None if t2 in (('.F.', '.FALSE.'), ('.T.', '.TRUE.'))[t] else 'written as %s for %s' % (t2, t)
        if d == 'OptionalParameter':
            g = J.deref(call(J, dst, 'custom', [tmp(got)]))
            w = J.deref(given)
            if short(src) == 'Option':
                if J.variant(w) == 'None':
                    return None if J.truth(call(J, dst, 'is_omitted', [tmp(got)])) else 'nothing given is not an omitted value'
                w = J.getfield(w, '0')
            if J.variant(g) != 'Some':
                return 'the value given is lost'
            return None if J.same(J.getfield(g, '0'), w) else 'holds %s' % J.show(J.deref(J.getfield(g, '0')))
        if d == 'IdOr':
            i, c = (J.deref(call(J, dst, n, [tmp(got)])) for n in ('id', 'custom'))
            ref = short(src) in ('Id', 'TypedId')
            x, y = (i, c) if ref else (c, i)
            if J.variant(y) != 'None':
                return 'is taken for %s' % ('a value in place' if ref else 'a reference')
            if J.variant(x) != 'Some':
                return 'the value given is lost'
            x = J.getfield(x, '0')
            if ref:
                x, w = core(J, x), core(J, given)
                return None if J.same(x, w) else 'refers to %s, given %s' % (J.show(x), J.show(w))
            return None if J.same(x, given) else 'holds %s' % J.show(J.deref(x))
        a, b = core(J, got), core(J, given)
        if d == 'StringPrimitive':
            while isinstance(a, Sym) and a.op == 'replace' and isinstance(a.args[1], str) and a.args[1].startswith('\\X2\\'):
                a = J.deref(a.args[0])
        if isinstance(a, Sym) and isinstance(b, Sym) and (a.ty == F64T or b.ty == F64T):
            p, q = geo.poly(J, a), geo.poly(J, b)
            return None if p == q else 'holds %s, given %s' % (geo.key(p), geo.key(q))
        return None if J.same(a, b) else 'holds %s, given %s' % (J.show(a), J.show(b))

    for im in F.impls_by_trait.get('std::convert::From', []):
        dst, src = im['self'], im['ta'][1] if len(im['ta']) > 1 else im['ta'][0]
        if not (dst[0] in ('adt', 'prim')) or im['derived']:
            continue
        d, s = short(dst), short(src)
        if d in ('DataMap',) or s not in PLAIN:
            continue
        # parameters of the conversion
        choices = [{}]
        if im['gen']:
            g = im['gen'][0]
            if d in ('RealValue', 'ThermalTransmittanceValue'):
                choices = [{g: F64T}, {g: adt('RealPrimitive')}]
            elif d == 'StringPrimitive':
                choices = [{g: STRING}, {g: ('ref', ('prim', 'str'), False)}]
            elif d == 'OptionalParameter':
                choices = [{g: adt(n)} for n in ('StringPrimitive', 'RealPrimitive', 'Id', 'BoolPrimitive')]
            else:
                choices = [{g: named[n]} for n in ('Organization', 'Person', 'Axis3D', 'Wall') if n in named]
        fn = body_of(im)
        if fn is None or fn['b'] is None:
            continue
        for sub in choices:
            D, S = F.subst(dst, sub), F.subst(src, sub)
            nm = '%s from %s' % (F.show(D), F.show(S))

            def conv(J, fn=fn, sub=sub, D=D, S=S):
                v = J.sym('v', S)
                got = J.run_fn(fn, sub, [v])
                return holds(J, S, D, v, got)
            run('conversion', nm, nm, conv)

    # ---- the three states of an optional value
    OP = F.find_adt('OptionalParameter')
    for n in ('StringPrimitive', 'RealPrimitive', 'IntegerPrimitive', 'BoolPrimitive', 'Id'):
        a = F.find_adt(n)
        if a is None:
            continue
        U = ('adt', a, ())
        OT = ('adt', OP, (U,))
        STATES = {'omitted': ('$', 'is_omitted'), 'inherited': ('*', 'is_inherited'), 'custom': (None, 'is_custom')}

        def make(J, st, OT=OT, U=U):
            if st == 'custom':
                v = J.sym('v', U)
                im = next(m for m in F.impls_by_trait['std::convert::From'] if m['self'][0] == 'adt' and m['self'][1] == OP
                          and m['ta'][-1][0] == 'param')
                return J.run_fn(body_of(im), {im['gen'][0]: U}, [v]), v
            return call(J, OT, st, []), None

        for st, (txt, q) in STATES.items():
            for st2, (_, q2) in STATES.items():
                def ask(J, st=st, st2=st2, q2=q2, OT=OT, make=make):
                    o, v = make(J, st)
                    r = J.truth(call(J, OT, q2, [tmp(o)]))
                    return None if r == (st == st2) else '%s is %s' % (q2, r)
                run('optional value', 'OptionalParameter::%s' % q2, '%s of an %s %s' % (q2, st, n), ask)

            def get(J, st=st, OT=OT, make=make):
                o, v = make(J, st)
                g = J.deref(call(J, OT, 'custom', [tmp(o)]))
                if st != 'custom':
                    return None if J.variant(g) == 'None' else 'a value where none is given'
                if J.variant(g) != 'Some':
                    return 'no value'
                return None if J.same(J.getfield(g, '0'), v) else 'another value'
            run('optional value', 'OptionalParameter::custom', 'custom of an %s %s' % (st, n), get)

            def change(J, st=st, OT=OT, U=U, make=make):
                o, v = make(J, st)
                cell = Cell(o)
                g = J.deref(call(J, OT, 'custom_mut', [Ref(cell, True)]))
                if st != 'custom':
                    return None if J.variant(g) == 'None' else 'a value where none is given'
                if J.variant(g) != 'Some':
                    return 'no value'
                r = J.getfield(g, '0')
                if not isinstance(r, Ref):
                    raise Undecided('no reference')
                w = J.sym('w', U)
                r.p.set(w)
                h = J.deref(call(J, OT, 'custom', [tmp(cell.get())]))
                if J.variant(h) != 'Some' or not J.same(J.getfield(h, '0'), w):
                    return 'a change through it is lost'
                return None
            run('optional value', 'OptionalParameter::custom_mut', 'custom_mut of an %s %s' % (st, n), change)

            def text(J, st=st, txt=txt, make=make):
                o, v = make(J, st)
                J.data['atomic'] = lambda u: False
                f, g = Fmt(), Fmt()
                J.display(o, f)
                a = G.pieces(mktxt(f.out))
                if txt is not None:
                    return None if a == [txt] or ''.join(x if isinstance(x, str) else '?' for x in a) == txt else 'written as %r' % (a,)
                J.display(v, g)
                b = G.pieces(mktxt(g.out))
                show = lambda ps: [p if isinstance(p, str) else (p.conv, p.v.name if isinstance(p.v, Sym) else J.show(p.v)) for p in ps]
                return None if show(a) == show(b) else 'written as %r, the value itself as %r' % (show(a), show(b))
            run('optional value', 'OptionalParameter written', 'text of an %s %s' % (st, n), text)

    # ---- defaults
    def default(J, ty):
        im = next((m for m in F.impls_by_trait.get('std::default::Default', []) if m['self'] == ty), None)
        if im is None:
            raise Undecided('no default')
        return J.deref(J.run_fn(F.fns[im['imap']['default'][0]], {}, []))

    TP = F.find_adt('TransformParameter')
    if TP is None:
        ctx.anchor_missing('TransformParameter')
    else:
        TP = ('adt', TP, ())
        UNITS = {'translation': (0, 0, 0), 'x_rotation': (1, 0, 0), 'y_rotation': (0, 1, 0), 'z_rotation': (0, 0, 1)}

        def numbers(v):
            return [{(): geo.Fr(c)} if c else {} for c in v]

        def still(J):
            t = default(J, TP)
            for n, w in UNITS.items():
                got = geo.vec(J, J.getfield(t, n))
                if got != numbers(w):
                    return '%s is %s' % (n, geo.vshow(got))
            return None
        run('default', 'TransformParameter::default', 'the default transformation moves and turns nothing', still)
        for n in UNITS:
            def setter(J, n=n):
                t = J.sym('t', TP)
                v = J.sym('v', adt3(I))
                got = J.deref(call(J, TP, n, [t, v]))
                zero = all(J.pc.get('eq(v.%s,0.0)' % x) is True for x in 'xyz')
                for m in UNITS:
                    g = geo.vec(J, J.getfield(got, m))
                    same = geo.vec(J, J.getfield(J.sym('t', TP), m))
                    if m != n:
                        if g != same:
                            return '%s changes' % m
                    elif g != geo.vec(J, v) and not (zero and g == same):
                        if g == same and any('(' in k[3:] for k in J.pc if 'v' in k):
                            raise Undecided('condition %s' % sorted(J.pc))
                        return '%s is %s afterwards' % (m, geo.vshow(g))
                return None
            run('default', 'TransformParameter::%s' % n, 'TransformParameter::%s sets that part only' % n, setter)

        def turn(J):
            Q = ('adt', 'bevy_math::DQuat', ())
            q = J.sym('q', Q)
            got = J.deref(call(J, TP, 'rotation', [J.sym('t', TP), q]))
            for i, m in enumerate(('x_rotation', 'y_rotation', 'z_rotation')):
                g = geo.vec(J, J.getfield(got, m))
                w = [{('turn(q)%s%s' % (geo.AX[k], geo.AX[i]),): geo.Fr(1)} for k in range(3)]
                same = geo.vec(J, J.getfield(J.sym('t', TP), m))
                if g != w and g != same:
                    return '%s is %s' % (m, geo.vshow(g))
            if geo.vec(J, J.getfield(got, 'translation')) != geo.vec(J, J.getfield(J.sym('t', TP), 'translation')):
                return 'the translation changes'
            return None
        run('default', 'TransformParameter::rotation', 'TransformParameter::rotation turns the three axes', turn)

    for im in F.impls_by_trait.get('std::default::Default', []):
        ty = im['self']
        n = F.show(ty)
        if ty in types and I.find_method(ty, 'new') and not F.fns[I.find_method(ty, 'new')[0]]['ins']:
            def plain(J, ty=ty):
                a, b = default(J, ty), J.deref(call(J, ty, 'new', []))
                J.data['atomic'] = lambda u: False
                f, g = Fmt(), Fmt()
                J.display(a, f)
                J.display(b, g)
                a, b = (''.join(x if isinstance(x, str) else '?' for x in G.pieces(mktxt(h.out))) for h in (f, g))
                return None if a == b else 'the default is %s, an empty one %s' % (a, b)
            run('default', n, 'the default %s is the empty one' % n, plain)
    for n in ('AuthorList', 'OrganizationList'):
        if F.find_adt(n):
            def one(J, n=n):
                v = J.deref(J.getfield(default(J, ('adt', F.find_adt(n), ())), '0'))
                items = J.items(v)
                if len(items) != 1:
                    return '%d entries' % len(items)
                x = core(J, items[0])
                return None if x == '' or isinstance(x, Txt) and not G.pieces(x) else 'the entry is %s' % J.show(x)
            run('default', n, 'the default %s has one empty entry' % n, one)

    def empty(J):
        v = default(J, IFC)
        d = J.deref(J.getfield(J.getfield(v, 'data'), '0'))
        return None if isinstance(d, Map) and not d.items else 'holds entries'
    run('default', 'IFC::default', 'a new model has no entries', empty)

    # ---- the extractor
    EX = F.find_adt('IfcExtractor')
    if EX:
        EX = ('adt', EX, ())

        def same(J):
            im = next(m for m in F.impls_by_trait['std::convert::From'] if m['self'] == EX)
            v = J.sym('m', IFC)
            e = J.run_fn(body_of(im), {}, [v])
            im = next((m for m in F.impls_by_trait['std::ops::Deref'] if m['self'] == EX), None)
            if im is None:
                return None
            r = J.deref(J.run_fn(F.fns[im['imap']['deref'][0]], {}, [tmp(e)]))
            return None if J.same(r, v) else 'shows another model'
        run('conversion', 'IfcExtractor', 'an extractor shows the model it was made from', same)
    # ---- shared and changeable view of the same part
    muts = {im['self'][1]: im for im in F.impls_by_trait.get('std::ops::DerefMut', []) if im['self'][0] == 'adt'}
    for im in F.impls_by_trait.get('std::ops::Deref', []):
        ty = im['self']
        if ty[0] != 'adt' or 'deref' not in im['imap'] or ty[1] not in F.adts or F.is_enum(ty):
            continue
        fn = F.fns.get(im['imap']['deref'][0])
        if fn is None or fn['b'] is None or ty[2] and any(t[0] == 'param' for t in ty[2]):
            continue
        n = F.show(ty)
        def view(J, ty=ty, fn=fn):
            v = J.sym('v', ty)
            r = J.run_fn(fn, {}, [tmp(v)])
            t = F.show(J.type_of(r))
            parts = [m for m, u in F.fields(ty) if F.show(u) == t]
            if len(parts) == 1 and not J.same(r, J.getfield(v, parts[0])):
                return 'shows something else than %s' % parts[0]
            return None
        run('view', n, 'deref of %s' % n, view)
        mim = muts.get(ty[1])
        fm = F.fns.get(mim['imap']['deref_mut'][0]) if mim and 'deref_mut' in mim['imap'] else None
        if fm is None or fm['b'] is None:
            continue

        def both(J, ty=ty, fn=fn, fm=fm):
            c = Cell(J.sym('v', ty))
            r = J.run_fn(fm, {}, [Ref(c, True)])
            if not isinstance(r, Ref):
                raise Undecided('no reference')
            w = J.sym('w', J.type_of(r))
            r.p.set(w)
            return None if J.same(J.run_fn(fn, {}, [tmp(c.get())]), w) else 'a change through deref_mut does not show in deref'
        run('view', n, 'deref_mut of %s' % n, both)
    ctx.floor('view', 40)
    ctx.floor('conversion', 26)
    ctx.floor('optional value', 60)
    ctx.floor('default', 9)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['values are arbitrary; generic conversions are analysed at representative types, their bodies do not look at the type']
    return ('Abstract interpretation: every conversion into a value of the crate on a symbolic argument, result compared with the argument '
            'inside its wrappers; the three states of optional values asked, read, changed and written; defaults compared field by field.')


def adt3(I):
    return ('adt', 'bevy_math::DVec3', ())
