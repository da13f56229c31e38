"""Models of the external functions the crate uses (std, winnow, bevy_math,
chrono, uuid, anyhow).  Keys are 'Type::method' / 'Trait::method' /
'module::function'.  A function that is not listed is treated as an
uninterpreted pure function of its arguments (and reported as such)."""
import math
import re
from interp import *
from interp import _wrap, F64, EXT_STRUCTS

N = {}


def nat(*names):
    def d(f):
        for n in names:
            N[n] = f
        return f
    return d


def D(I, v):
    return I.deref(v)


# ------------------------------------------------------------ identity-ish
@nat('hint::must_use', '__private::must_use', 'Box::new', 'Rc::new', 'Arc::new', 'box::new', 'String::from_utf8_lossy',
     'String::into_boxed_str', 'Vec::into_boxed_slice', 'convert::identity', 'Cow::Borrowed', 'Cow::Owned', 'Cow::into_owned',
     'IntoParser::into_parser', 'Parser::by_ref', 'Option::into_iter_', 'Result::into_ok')
def _id(I, c):
    return c.args[0]


@nat('ToOwned::to_owned', 'Clone::clone', 'str::to_owned', 'slice::to_vec', 'str::to_string', 'Vec::as_slice',
     'String::as_str', 'str::as_ref', 'Option::as_deref_', 'String::into_string', 'str::into_string', 'slice::into_vec',
     'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'AsMut::as_mut', 'Vec::as_mut_slice',
     'Downcast::as_any', 'Downcast::as_any_mut', 'Downcast::into_any', 'Box::as_ref', 'Box::leak', 'Vec::as_ref', 'array::as_slice',
     'Downcast::into_any_rc')
def _clone(I, c):
    v = c.args[0]
    n = c.f.get('n')
    if n in ('clone', 'to_owned', 'to_vec', 'to_string', 'into_string', 'into_vec', 'into_any'):
        return D(I, v)
    if n in ('deref_mut', 'as_mut', 'as_mut_slice', 'as_any_mut'):
        if isinstance(v, Ref):
            inner = v.p.get()
            return inner if isinstance(inner, Ref) else v
        return v
    # produce a shared reference to the same thing
    if isinstance(v, Ref):
        inner = v.p.get()
        return inner if isinstance(inner, Ref) else v
    return tmp(v)


@nat('Default::default')
def _default(I, c):
    t = c.targs[0] if c.targs else c.ret
    return default_of(I, t)


def default_of(I, t):
    if t[0] == 'prim':
        if t[1] == 'bool':
            return False
        if t[1] in ('f64', 'f32'):
            return 0.0
        if t[1] == 'char':
            return '\0'
        return 0
    if t[0] == 'ref' and t[1] == STR:
        return tmp('')
    if t[0] == 'tuple':
        return Tup(default_of(I, x) for x in t[1])
    if t[0] == 'adt':
        n = t[1].split('::')[-1]
        if t == STRING:
            return ''
        if n == 'Vec':
            return Seq()
        if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            return Map(n)
        if n == 'Option':
            return NONE
        if n == 'Box':
            return default_of(I, t[2][0])
        if n in ('DVec2', 'DVec3'):
            return Obj(t[1], n, {k: 0.0 for k in 'xyz'[:int(n[-1])]})
        r = I.F.impl_for('std::default::Default', [t])
        if r:
            k = r[0]['imap']['default'][0]
            return I.run_fn(I.F.fns[k], dict(r[1]), [])
    raise Undecided('default of ' + I.F.show(t))


@nat('mem::drop', 'drop::drop', 'mem::forget')
def _drop(I, c):
    return UNIT


@nat('mem::take')
def _mtake(I, c):
    p = c.args[0].p
    v = p.get()
    t = I.type_of(v)
    if isinstance(v, Seq):
        p.set(Seq())
    elif isinstance(v, Map):
        p.set(Map(v.kind))
    elif isinstance(v, (str, Txt)):
        p.set('')
    elif t:
        p.set(default_of(I, t))
    else:
        raise Undecided('mem::take')
    return v


@nat('mem::replace')
def _mreplace(I, c):
    p = c.args[0].p
    v = p.get()
    p.set(c.args[1])
    return v


@nat('mem::swap')
def _mswap(I, c):
    a, b = c.args[0].p, c.args[1].p
    x, y = a.get(), b.get()
    a.set(y)
    b.set(x)
    return UNIT


# ------------------------------------------------------------ conversions
@nat('Into::into', 'From::from', 'TryInto::try_into', 'TryFrom::try_from', 'FromStr::from_str', 'str::parse')
def _into(I, c):
    n = c.f['n']
    if n in ('into', 'try_into'):
        src = c.targs[0] if c.targs else None
        dst = c.targs[1] if len(c.targs) > 1 else c.ret
        if (src is None or not I.F.concrete(src)) and c.args:
            t = I.type_of(c.args[0])
            if t is not None and not isinstance(c.args[0], Ref):
                src = t
    elif n == 'parse':
        dst = c.targs[0] if c.targs else None
        return _fromstr(I, dst, c)
    elif n == 'from_str':
        return _fromstr(I, c.targs[0], c)
    else:
        dst = c.targs[0]
        src = c.targs[1] if len(c.targs) > 1 else None
    return convert(I, c.args[0], src, dst, c, n.startswith('try'))


def _fromstr(I, dst, c):
    r = I.F.impl_for('std::str::FromStr', [dst]) if dst else None
    if r and c.f['n'] == 'parse':
        k = r[0]['imap']['from_str'][0]
        return I.run_fn(I.F.fns[k], dict(r[1]), [c.args[0]])
    v = D(I, c.args[0])
    if isinstance(v, str) and dst and dst[0] == 'prim':
        try:
            if dst[1] in ('f64', 'f32'):
                return ok(float(v))
            return ok(int(v))
        except ValueError:
            return err(Opaque('ParseError'))
    if c.ret is None:
        raise Undecided('from_str')
    return I.app('from_str<%s>' % I.F.show(dst), [v], c.ret)


def convert(I, v, src, dst, c, fallible=False):
    if dst and dst[0] == 'prim' and dst[1][0] == 'u' and isinstance(D(I, v), Bits) and len(Bits.of(0, dst[1]).b) >= len(D(I, v).b):
        return D(I, v).cast(dst[1]) if not fallible else ok(D(I, v).cast(dst[1]))
    wrap = ok if fallible else (lambda x: x)
    if src is not None and src == dst:
        return wrap(v)
    if dst is None or dst[0] in ('param', 'alias'):
        raise Undecided('conversion to unknown type %s' % (dst,))
    # local From impls
    if src is not None and I.F.concrete(src):
        for tr, m in (('std::convert::From', 'from'), ('std::convert::TryFrom', 'try_from')):
            r = I.F.impl_for(tr, [dst, src])
            if r:
                k = r[0]['imap'][m][0]
                I_args = [v]
                h = I.hooks.get(k)
                if h is not None:
                    x = h(I, Call(c.f, [r[1].get(g) for g in I.F.fns[k]['gen']], I_args, dst, c.sp, dst))
                    if x is not NotImplemented:
                        return x
                return I.run_fn(I.F.fns[k], dict(r[1]), I_args)
        # a local Into impl
        r = I.F.impl_for('std::convert::Into', [src, dst])
        if r:
            return I.run_fn(I.F.fns[r[0]['imap']['into'][0]], dict(r[1]), [v])
    else:
        # abstract source type: opaque conversion (identity of data flow kept)
        if isinstance(v, Sym) or src is None or src[0] in ('param', 'alias'):
            if isinstance(v, Sym):
                return wrap(I.app('into', [v], dst))
    if dst == STRING or dst == STR:
        return wrap(D(I, v))
    if dst[0] == 'adt' and dst[1] == 'chrono::DateTime':
        return wrap(D(I, v))
    if dst[0] == 'adt' and dst[1] in EXT_STRUCTS:
        x = D(I, v)
        if isinstance(x, (Tup, Seq)):
            fs = [n for n, _ in EXT_STRUCTS[dst[1]]]
            if len(x.items) == len(fs):
                return wrap(Obj(dst[1], dst[1].split('::')[-1], dict(zip(fs, x.items))))
    if dst[0] == 'adt' and dst[1] == 'std::option::Option':
        return wrap(some(v))
    if dst[0] == 'adt' and dst[1] in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'):
        return wrap(v)
    if dst[0] == 'prim' and dst[1] in ('f64', 'f32') and isinstance(v, int):
        return wrap(float(v))
    if dst[0] == 'prim' and isinstance(v, int):
        if fallible:
            from interp import _range
            lo, hi = _range(dst[1])
            return ok(v) if lo is None or lo <= v <= hi else err(Opaque('TryFromIntError'))
        return v
    if dst[0] == 'array':
        s = D(I, v)
        if isinstance(s, Seq):
            if len(s.items) == dst[2] or dst[2] < 0:
                return wrap(s)
            return err(v)
    if dst[0] == 'adt' and dst[1].split('::')[-1] in ('Vec',):
        return wrap(Seq(I.items(v)))
    if dst[0] == 'adt' and dst[1].split('::')[-1] in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return wrap(build_map(I, dst[1].split('::')[-1], I.items(v)))
    if dst[0] == 'ref' and isinstance(v, Ref):
        return wrap(v)
    if dst[0] == 'adt' and dst[1].startswith('anyhow'):
        return wrap(Opaque('Error', v))
    if fallible:
        if c.ret is None:
            raise Undecided('try_into')
        return I.app('try_into', [v], c.ret)
    return I.app('into<%s>' % I.F.show(dst), [v], dst)


# ------------------------------------------------------------ Try
@nat('Try::branch')
def _branch(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var in ('Ok', 'Some'):
        return Obj('std::ops::ControlFlow', 'Continue', {'0': I.getfield(v, '0')})
    if var in ('Continue', 'Break'):
        return v
    if var == 'None':
        return Obj('std::ops::ControlFlow', 'Break', {'0': NONE})
    return Obj('std::ops::ControlFlow', 'Break', {'0': err(I.getfield(v, '0'))})


@nat('FromResidual::from_residual')
def _fromres(I, c):
    return c.args[0]


@nat('Try::from_output')
def _fromout(I, c):
    if c.ret and c.ret[0] == 'adt' and c.ret[1].endswith('Option'):
        return some(c.args[0])
    return ok(c.args[0])


# ------------------------------------------------------------ Option / Result
def is_some(I, v):
    return I.variant(D(I, v)) == 'Some'


def inner(I, v):
    return I.getfield(D(I, v), '0')


@nat('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _isx(I, c):
    v = I.variant(D(I, c.args[0]))
    return v == {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[c.f['n']]


@nat('Option::is_some_and', 'Option::is_none_or', 'Result::is_ok_and')
def _issomeand(I, c):
    v = I.variant(D(I, c.args[0]))
    if v in ('None', 'Err'):
        return c.f['n'] == 'is_none_or'
    return I.truth(I.callv(c.args[1], [inner(I, c.args[0])]))


@nat('Option::map', 'Result::map')
def _omap(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var in ('None', 'Err'):
        return v if var == 'None' else err(inner(I, v))
    x = I.callv(c.args[1], [inner(I, v)], _inner_ret(c.ret))
    return some(x) if var == 'Some' else ok(x)


def _inner_ret(t):
    if t and t[0] == 'adt' and t[2]:
        return t[2][0]
    return None


@nat('Option::and_then', 'Result::and_then')
def _oandthen(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var == 'None':
        return v
    if var == 'Err':
        return err(inner(I, v))
    return I.callv(c.args[1], [inner(I, v)], c.ret)


@nat('Option::and', 'Result::and')
def _oand(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    return c.args[1] if var in ('Some', 'Ok') else v


@nat('Option::or', 'Result::or')
def _oor(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    return v if var in ('Some', 'Ok') else c.args[1]


@nat('Option::or_else', 'Result::or_else')
def _oorelse(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var in ('Some', 'Ok'):
        return v if var == 'Some' else ok(inner(I, v))
    return I.callv(c.args[1], [] if var == 'None' else [inner(I, v)], c.ret)


@nat('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect')
def _unwrap(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var in ('Some', 'Ok'):
        return inner(I, v)
    raise Panic('%s on %s of %s' % (c.f['n'], var, c.args[0]), c.sp)


@nat('Result::unwrap_err', 'Result::expect_err')
def _unwrape(I, c):
    v = D(I, c.args[0])
    if I.variant(v) == 'Err':
        return inner(I, v)
    raise Panic('unwrap_err', c.sp)


@nat('Option::unwrap_or', 'Result::unwrap_or')
def _unwrapor(I, c):
    v = D(I, c.args[0])
    return inner(I, v) if I.variant(v) in ('Some', 'Ok') else c.args[1]


@nat('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _unwraporelse(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var in ('Some', 'Ok'):
        return inner(I, v)
    return I.callv(c.args[1], [] if var == 'None' else [inner(I, v)], c.ret)


@nat('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _unwrapordef(I, c):
    v = D(I, c.args[0])
    return inner(I, v) if I.variant(v) in ('Some', 'Ok') else default_of(I, c.ret)


@nat('Option::map_or', 'Result::map_or')
def _mapor(I, c):
    v = D(I, c.args[0])
    if I.variant(v) in ('Some', 'Ok'):
        return I.callv(c.args[2], [inner(I, v)], c.ret)
    return c.args[1]


@nat('Option::map_or_else', 'Result::map_or_else')
def _maporelse(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var in ('Some', 'Ok'):
        return I.callv(c.args[2], [inner(I, v)], c.ret)
    return I.callv(c.args[1], [] if var == 'None' else [inner(I, v)], c.ret)


@nat('Option::ok_or', 'Option::ok_or_else')
def _okor(I, c):
    v = D(I, c.args[0])
    if I.variant(v) == 'Some':
        return ok(inner(I, v))
    return err(c.args[1] if c.f['n'] == 'ok_or' else I.callv(c.args[1], []))


@nat('Result::ok')
def _rok(I, c):
    v = D(I, c.args[0])
    return some(inner(I, v)) if I.variant(v) == 'Ok' else NONE


@nat('Result::err')
def _rerr(I, c):
    v = D(I, c.args[0])
    return some(inner(I, v)) if I.variant(v) == 'Err' else NONE


@nat('Result::map_err')
def _maperr(I, c):
    v = D(I, c.args[0])
    if I.variant(v) == 'Ok':
        return ok(inner(I, v))
    return err(I.callv(c.args[1], [inner(I, v)]))


@nat('Context::context', 'Context::with_context', 'Error::context')
def _context(I, c):
    v = D(I, c.args[0])
    if isinstance(v, Opaque):
        return v
    var = I.variant(v)
    if var == 'Ok':
        return ok(inner(I, v))
    if var == 'Some':
        return ok(inner(I, v))
    return err(Opaque('Error', ('context', inner(I, v) if var == 'Err' else None)))


@nat('Error::msg', '__private::format_err', 'anyhow::Ok', 'Error::new', 'kind::new')
def _anyerr(I, c):
    return Opaque('Error', I.show(c.args[0]) if c.args else None)


@nat('Option::cloned', 'Option::copied', 'Result::cloned', 'Result::copied')
def _ocloned(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var == 'Some':
        return some(D(I, inner(I, v)))
    if var == 'Ok':
        return ok(D(I, inner(I, v)))
    return v


@nat('Option::as_ref', 'Option::as_deref', 'Result::as_ref', 'Option::as_mut', 'Option::as_deref_mut')
def _oasref(I, c):
    v = D(I, c.args[0])
    var = I.variant(v)
    if var in ('Some', 'Ok', 'Err'):
        x = inner(I, v)
        mut = 'mut' in c.f['n']
        if mut:
            r = Ref(FieldP(I, c.args[0].p, '0'), 1)
        else:
            r = x if isinstance(x, Ref) else tmp(x)
        return Obj('std::option::Option' if var == 'Some' else 'std::result::Result', var, {'0': r})
    return NONE


@nat('Option::take')
def _otake(I, c):
    p = c.args[0].p
    v = p.get()
    if isinstance(v, Ref):
        p = v.p
        v = p.get()
    p.set(NONE)
    return v


@nat('Option::replace', 'Option::insert')
def _oreplace(I, c):
    p = c.args[0].p
    v = p.get()
    p.set(some(c.args[1]))
    if c.f['n'] == 'insert':
        return Ref(FieldP(I, p, '0'), 1)
    return v


@nat('Option::get_or_insert_with', 'Option::get_or_insert')
def _ogetins(I, c):
    p = c.args[0].p
    v = p.get()
    if I.variant(v) == 'None':
        p.set(some(I.callv(c.args[1], []) if c.f['n'].endswith('with') else c.args[1]))
    return Ref(FieldP(I, p, '0'), 1)


@nat('Option::flatten', 'Result::flatten')
def _oflat(I, c):
    v = D(I, c.args[0])
    return inner(I, v) if I.variant(v) in ('Some', 'Ok') else v


@nat('Option::filter')
def _ofilter(I, c):
    v = D(I, c.args[0])
    if I.variant(v) == 'None':
        return v
    return v if I.truth(I.callv(c.args[1], [tmp(inner(I, v))])) else NONE


@nat('Option::zip')
def _ozip(I, c):
    a, b = D(I, c.args[0]), D(I, c.args[1])
    if I.variant(a) == 'Some' and I.variant(b) == 'Some':
        return some(Tup((inner(I, a), inner(I, b))))
    return NONE


@nat('Option::inspect', 'Result::inspect')
def _oinspect(I, c):
    v = D(I, c.args[0])
    if I.variant(v) in ('Some', 'Ok'):
        I.callv(c.args[1], [tmp(inner(I, v))])
    return v


@nat('Option::transpose')
def _otrans(I, c):
    v = D(I, c.args[0])
    if I.variant(v) == 'None':
        return ok(NONE)
    r = inner(I, v)
    return ok(some(inner(I, r))) if I.variant(r) == 'Ok' else err(inner(I, r))


@nat('Option::iter', 'Option::into_iter', 'Option::iter_mut')
def _oiter(I, c):
    v = D(I, c.args[0])
    return It([inner(I, v)] if I.variant(v) == 'Some' else [])


@nat('bool::then_some')
def _thensome(I, c):
    return some(c.args[1]) if I.truth(D(I, c.args[0])) else NONE


@nat('bool::then')
def _then(I, c):
    return some(I.callv(c.args[1], [])) if I.truth(D(I, c.args[0])) else NONE


# ------------------------------------------------------------ panics
@nat('panicking::panic_fmt', 'panicking::panic', 'panicking::panic_display', 'panicking::unreachable_display',
     'panicking::panic_explicit', 'panicking::assert_failed', 'rt::begin_panic', 'rt::panic_fmt', 'intrinsics::unreachable',
     'panicking::unreachable_unchecked', 'process::abort', 'process::exit', 'rt::panic_display', 'panicking::panic_str')
def _panic(I, c):
    msg = ''
    try:
        if c.args and isinstance(D(I, c.args[0]), Opaque):
            msg = repr(mktxt(D(I, c.args[0]).data or []))
    except Exception:
        pass
    raise Panic(('panic ' + msg).strip(), c.sp)


# ------------------------------------------------------------ Vec / slice / array
def seqof(I, v):
    v = D(I, v)
    if isinstance(v, (Seq, It)):
        return list(v.items)
    return I.items(v)


def splace(v):
    p = v.p
    while isinstance(p.get(), Ref):
        p = p.get().p
    return p


@nat('Vec::new', 'Vec::with_capacity')
def _vnew(I, c):
    return Seq()


@nat('String::new', 'String::with_capacity')
def _snew(I, c):
    return ''


@nat('Vec::push', 'VecDeque::push_back')
def _vpush(I, c):
    p = splace(c.args[0])
    v = p.get()
    p.set(Seq(seqof(I, v) + [c.args[1]]))
    return UNIT


@nat('Vec::extend', 'Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'Extend::extend_one')
def _vext(I, c):
    if c.f['n'] == 'extend' and not (isinstance(c.args[0], Ref)):
        return _dv_extend(I, c)
    p = splace(c.args[0])
    v = p.get()
    if isinstance(v, (str, Txt)):
        p.set(mktxt([v] + [D(I, x) for x in seqof(I, c.args[1])]))
        return UNIT
    add = seqof(I, c.args[1])
    if isinstance(v, Map) or (isinstance(v, Sym) and v.ty[0] == 'adt' and v.ty[1].split('::')[-1] in (
            'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')):
        m = tomap(I, v)
        for x in add:
            if m.kind.endswith('Set'):
                m = map_insert(I, m, D(I, x), UNIT)[0]
            else:
                m = map_insert(I, m, x.items[0], x.items[1])[0]
        p.set(m)
        return UNIT
    if c.f['n'] == 'extend_from_slice':
        add = [D(I, x) for x in add]
    p.set(Seq(seqof(I, v) + add))
    if c.f['n'] == 'append':
        splace(c.args[1]).set(Seq())
    return UNIT


def _dv_extend(I, c):
    v = I.expand(D(I, c.args[0]))
    return Obj('bevy_math::DVec3', 'DVec3', {'x': v.f['x'], 'y': v.f['y'], 'z': c.args[1]})


@nat('DVec2::extend')
def _dv_extend2(I, c):
    return _dv_extend(I, c)


@nat('Vec::insert')
def _vins(I, c):
    if len(c.args) == 3:
        p = splace(c.args[0])
        it = seqof(I, p.get())
        i = c.args[1]
        if not isinstance(i, int):
            raise Undecided('Vec::insert')
        if i > len(it):
            raise Panic('insert out of bounds', c.sp)
        it.insert(i, c.args[2])
        p.set(Seq(it))
        return UNIT
    return NotImplemented


@nat('Vec::pop')
def _vpop(I, c):
    p = splace(c.args[0])
    it = seqof(I, p.get())
    if not it:
        return NONE
    p.set(Seq(it[:-1]))
    return some(it[-1])


@nat('Vec::remove', 'Vec::swap_remove')
def _vrem(I, c):
    p = splace(c.args[0])
    it = seqof(I, p.get())
    i = c.args[1]
    if not isinstance(i, int):
        raise Undecided('Vec::remove')
    if i >= len(it):
        raise Panic('remove out of bounds', c.sp)
    x = it.pop(i)
    p.set(Seq(it))
    return x


@nat('Vec::clear', 'HashMap::clear', 'HashSet::clear', 'BTreeMap::clear', 'String::clear')
def _clear(I, c):
    p = splace(c.args[0])
    v = p.get()
    if isinstance(v, Map) or (isinstance(v, Sym) and v.ty[1].split('::')[-1] in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')):
        p.set(Map(v.kind if isinstance(v, Map) else v.ty[1].split('::')[-1]))
    elif isinstance(v, (str, Txt)):
        p.set('')
    else:
        p.set(Seq())
    return UNIT


@nat('Vec::drain', 'HashMap::drain', 'HashSet::drain')
def _drain(I, c):
    p = splace(c.args[0])
    it = I.items(p.get())
    v = p.get()
    if len(c.args) > 1:
        r = D(I, c.args[1])
        if isinstance(r, Obj) and r.adt == 'Range' and (r.f['lo'] or r.f['hi'] is not None):
            raise Undecided('drain range')
    p.set(Map(v.kind) if isinstance(v, Map) else Seq() if not (isinstance(v, Sym) and 'Hash' in v.ty[1]) else Map(
        v.ty[1].split('::')[-1]))
    return It(it)


@nat('Vec::len', 'slice::len', 'HashMap::len', 'BTreeMap::len', 'HashSet::len', 'BTreeSet::len', 'ExactSizeIterator::len',
     'array::len', 'VecDeque::len')
def _len(I, c):
    v = D(I, c.args[0])
    if isinstance(v, Map) and v.base is not None:
        return I.app('len', [v.base], ('prim', 'usize'))
    return len(I.items(v))


@nat('Vec::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'BTreeMap::is_empty', 'HashSet::is_empty', 'BTreeSet::is_empty')
def _empty(I, c):
    return len(I.items(D(I, c.args[0]))) == 0


@nat('slice::iter', 'Vec::iter', 'slice::iter_mut', 'HashMap::iter', 'BTreeMap::iter', 'HashSet::iter', 'BTreeSet::iter',
     'HashMap::iter_mut', 'BTreeMap::iter_mut', 'Vec::iter_mut', 'array::iter', 'VecDeque::iter')
def _iter(I, c):
    a = c.args[0]
    v = D(I, a)
    mut = c.f['n'] == 'iter_mut'
    if mut:
        p = splace(a)
        if isinstance(v, Sym):
            v = I.materialize(v)
            p.set(v)
        if isinstance(v, Map):
            if v.base is not None:
                base = I._base_entries(v)
                v = Map(v.kind, base + list(v.items), None)
                p.set(v)
            return It([Tup((tmp(k), Ref(MapP(p, i), 1))) for i, (k, _) in enumerate(v.items)])
        return It([Ref(ElemP(p, i), 1) for i in range(len(v.items))])
    out = []
    ism = isinstance(v, Map) and not v.kind.endswith('Set') or (
        isinstance(v, Sym) and v.ty[0] == 'adt' and v.ty[1].split('::')[-1] in ('HashMap', 'BTreeMap'))
    for x in I.items(v):
        if ism:
            out.append(Tup((asref(x.items[0]), asref(x.items[1]))))
        else:
            out.append(asref(x))
    return It(out)


def asref(x):
    return x if isinstance(x, Ref) and False else tmp(x)


@nat('IntoIterator::into_iter')
def _intoiter(I, c):
    a = c.args[0]
    v = D(I, a)
    if isinstance(v, It):
        return v
    if isinstance(v, Sym) and v.ty[0] in ('alias', 'param'):
        return I.app('iter', [v], v.ty)
    if isinstance(a, Ref) and not isinstance(v, Obj):
        c2 = Call(dict(c.f, n='iter_mut' if a.m and not isinstance(v, It) and _is_mutref(c) else 'iter'), c.targs, c.args, c.ret, c.sp, None)
        return _iter(I, c2)
    if isinstance(v, Obj) and v.adt == 'std::option::Option' or (isinstance(v, Sym) and v.ty[0] == 'adt' and v.ty[1].endswith('Option')):
        return It([inner(I, v)] if I.variant(v) == 'Some' else [])
    if isinstance(v, Obj) and v.adt == 'Range' and v.f['hi'] is None:
        return It((), gen=('count', v.f['lo']))
    if isinstance(v, Obj) and v.adt in I.F.adts:
        # local newtype over a collection: only if it is Iterator itself
        raise Undecided('into_iter of %s' % v.adt)
    return It(I.items(v))


def _is_mutref(c):
    t = c.targs[0] if c.targs else None
    return t is not None and t[0] == 'ref' and t[2] == 1


@nat('slice::contains', 'Vec::contains')
def _contains(I, c):
    x = D(I, c.args[1])
    return any(I.equal(y, x) for y in seqof(I, c.args[0]))


@nat('slice::first', 'slice::last', 'Vec::first', 'Vec::last')
def _first(I, c):
    it = seqof(I, c.args[0])
    if not it:
        return NONE
    return some(tmp(it[0 if c.f['n'] == 'first' else -1]))


@nat('slice::get', 'Vec::get')
def _sget(I, c):
    it = seqof(I, c.args[0])
    i = D(I, c.args[1])
    if isinstance(i, int):
        return some(tmp(it[i])) if i < len(it) else NONE
    raise Undecided('slice::get')


@nat('slice::get_mut', 'Vec::get_mut')
def _sgetm(I, c):
    p = splace(c.args[0])
    it = seqof(I, p.get())
    i = D(I, c.args[1])
    if isinstance(i, int):
        if not isinstance(p.get(), Seq):
            p.set(Seq(it))
        return some(Ref(ElemP(p, i), 1)) if i < len(it) else NONE
    raise Undecided('slice::get_mut')


@nat('slice::last_mut', 'slice::first_mut', 'Vec::last_mut')
def _lastm(I, c):
    p = splace(c.args[0])
    it = seqof(I, p.get())
    if not it:
        return NONE
    if not isinstance(p.get(), Seq):
        p.set(Seq(it))
    return some(Ref(ElemP(p, len(it) - 1 if c.f['n'] == 'last_mut' else 0), 1))


@nat('slice::split_first')
def _splitfirst(I, c):
    it = seqof(I, c.args[0])
    return some(Tup((tmp(it[0]), tmp(Seq(it[1:]))))) if it else NONE


@nat('slice::reverse')
def _reverse(I, c):
    p = splace(c.args[0])
    p.set(Seq(reversed(seqof(I, p.get()))))
    return UNIT


@nat('Vec::dedup', 'Vec::dedup_by_key')
def _vdedup(I, c):
    p = splace(c.args[0])
    out, ks = [], []
    for x in seqof(I, p.get()):
        k = I.callv(c.args[1], [tmp(x)]) if c.f['n'] == 'dedup_by_key' else x
        if not ks or not I.equal(ks[-1], k):
            out.append(x)
            ks.append(k)
    p.set(Seq(out))
    return UNIT


@nat('slice::sort', 'slice::sort_unstable', 'slice::sort_by_key', 'slice::sort_by', 'Vec::shrink_to_fit', 'Vec::reserve')
def _sortnoop(I, c):
    p = splace(c.args[0])
    it = seqof(I, p.get())
    if c.f['n'].startswith('sort') and len(it) > 1:
        if c.f['n'] == 'sort_by':
            out = []
            for x in it:
                i = len(out)
                while i and I.variant(D(I, I.callv(c.args[1], [tmp(x), tmp(out[i - 1])]))) == 'Less':
                    i -= 1
                out.insert(i, x)
            p.set(Seq(out))
            return UNIT
        key = (lambda x: D(I, I.callv(c.args[1], [tmp(x)]))) if 'key' in c.f['n'] else (lambda x: D(I, x))
        p.set(Seq(ordered(I, it, key)))
    return UNIT


def ordered(I, its, key):
    """stable sort of numbers (newtypes of numbers) or texts, splitting unknown orders"""
    out = []
    for x in its:
        k = key(x)
        i = len(out)
        while i and before(I, k, out[i - 1][0]):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def before(I, a, b):
    """a < b"""
    a, b = I.bare(a), I.bare(b)
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(a, Obj) and isinstance(b, Obj) and a.adt == b.adt == 'std::option::Option':
        if a.var == b.var == 'Some':
            return before(I, inner(I, a), inner(I, b))
        return a.var == 'None' and b.var == 'Some'
    if isinstance(a, Tup) and isinstance(b, Tup):
        for x, y in zip(a.items, b.items):
            if before(I, x, y):
                return True
            if before(I, y, x):
                return False
        return False
    if I.term(a) is None or I.term(b) is None:
        raise Undecided('order of %s and %s' % (I.show(a), I.show(b)))
    return I.cmp_split(a, b, False)


@nat('Vec::truncate')
def _vtruncate(I, c):
    p = splace(c.args[0])
    n = D(I, c.args[1])
    it = seqof(I, p.get())
    if not isinstance(n, int):
        raise Undecided('truncate')
    p.set(Seq(it[:n]))
    return UNIT


@nat('Vec::retain', 'HashMap::retain', 'BTreeMap::retain', 'HashSet::retain', 'BTreeSet::retain')
def _vretain(I, c):
    p = splace(c.args[0])
    v = D(I, p.get())
    if isinstance(v, Map) or (isinstance(v, Sym) and 'Vec' not in v.ty[1]):
        m = tomap(I, p.get())
        out = []
        for x in I.items(m):
            if m.kind.endswith('Set'):
                if I.truth(I.callv(c.args[1], [tmp(x)])):
                    out.append((x, UNIT))
            elif I.truth(I.callv(c.args[1], [tmp(x.items[0]), tmp(x.items[1])])):
                out.append((x.items[0], x.items[1]))
        p.set(Map(m.kind, out))
        return UNIT
    p.set(Seq([x for x in seqof(I, p.get()) if I.truth(I.callv(c.args[1], [tmp(x)]))]))
    return UNIT


@nat('Vec::split_off')
def _vsplitoff(I, c):
    p = splace(c.args[0])
    n = D(I, c.args[1])
    it = seqof(I, p.get())
    if not isinstance(n, int):
        raise Undecided('split_off')
    if n > len(it):
        raise Panic('split_off out of range', c.sp)
    p.set(Seq(it[:n]))
    return Seq(it[n:])


@nat('slice::chunks', 'slice::windows', 'slice::chunks_exact')
def _chunks(I, c):
    it, n = seqof(I, c.args[0]), D(I, c.args[1])
    if not isinstance(n, int) or n < 1:
        raise Undecided('chunks')
    if c.f['n'] == 'windows':
        return It([tmp(Seq(it[i:i + n])) for i in range(len(it) - n + 1)])
    r = [tmp(Seq(it[i:i + n])) for i in range(0, len(it), n)]
    if c.f['n'] == 'chunks_exact' and len(it) % n:
        r.pop()
    return It(r)


@nat('slice::split_last')
def _splitlast(I, c):
    it = seqof(I, c.args[0])
    return some(Tup((tmp(it[-1]), tmp(Seq(it[:-1]))))) if it else NONE


@nat('BTreeMap::range')
def _mrange(I, c):
    m = tomap(I, c.args[0])
    r = D(I, c.args[1])
    if not (isinstance(r, Obj) and r.adt == 'Range'):
        raise Undecided('range of a map')
    out = []
    for x in I.items(m):
        k = x.items[0]
        if r.f['lo'] is not None and r.f['lo'] != 0 and before(I, k, r.f['lo']):
            continue
        hi = r.f['hi']
        if hi is not None:
            if 'Inclusive' in r.var:
                raise Undecided('range of a map')
            if not before(I, k, hi):
                continue
        out.append(Tup((tmp(k), tmp(x.items[1]))))
    return It(out)


@nat('BTreeMap::pop_first', 'BTreeMap::pop_last')
def _mpop(I, c):
    p = splace(c.args[0])
    m = tomap(I, p.get())
    its = I.items(m)
    if not its:
        return NONE
    x = its.pop(0 if c.f['n'] == 'pop_first' else -1)
    p.set(Map(m.kind, [(y.items[0], y.items[1]) for y in its]))
    return some(x)


@nat('Iterator::scan')
def _iscan(I, c):
    st = Cell(c.args[1])
    out = []
    for x in items(I, c.args[0]):
        r = D(I, I.callv(c.args[2], [Ref(st, 1), x]))
        if I.variant(r) == 'None':
            break
        out.append(inner(I, r))
    return It(out)


@nat('Iterator::eq', 'Iterator::ne')
def _ieq(I, c):
    a, b = items(I, c.args[0]), seqof(I, c.args[1])
    r = len(a) == len(b) and all(I.equal(x, y) for x, y in zip(a, b))
    return r if c.f['n'] == 'eq' else not r


@nat('Iterator::rposition')
def _irpos(I, c):
    its = items(I, c.args[0])
    for i in range(len(its) - 1, -1, -1):
        if I.truth(I.callv(c.args[1], [its[i]])):
            return some(i)
    return NONE


@nat('Option::xor')
def _oxor(I, c):
    a, b = D(I, c.args[0]), D(I, c.args[1])
    x, y = I.variant(a) == 'Some', I.variant(b) == 'Some'
    return a if x and not y else b if y and not x else NONE


@nat('str::split_once', 'str::rsplit_once')
def _ssplitonce(I, c):
    s, x = D(I, c.args[0]), D(I, c.args[1])
    if isinstance(s, str) and isinstance(x, str):
        if x not in s:
            return NONE
        a, b = s.split(x, 1) if c.f['n'] == 'split_once' else s.rsplit(x, 1)
        return some(Tup((tmp(a), tmp(b))))
    raise Undecided('split_once')


@nat('slice::swap')
def _swap(I, c):
    p = splace(c.args[0])
    it = seqof(I, p.get())
    i, j = c.args[1], c.args[2]
    it[i], it[j] = it[j], it[i]
    p.set(Seq(it))
    return UNIT


@nat('slice::join', 'slice::concat', 'Itertools::join', 'Join::join', 'Concat::concat')
def _join(I, c):
    sep = D(I, c.args[1]) if len(c.args) > 1 else ''
    its = seqof(I, c.args[0])
    out = []
    for i, x in enumerate(its):
        if i:
            out.append(sep)
        f = Fmt()
        I.display(x, f)
        out.extend(f.out)
    return mktxt(out)


@nat('array::map')
def _amap(I, c):
    return Seq([I.callv(c.args[1], [x]) for x in seqof(I, c.args[0])])


@nat('Index::index', 'SliceIndex::index')
def _index(I, c):
    i = D(I, c.args[1])
    b = D(I, c.args[0])
    if isinstance(b, (Map,)) or (isinstance(b, Sym) and b.ty[0] == 'adt' and 'Map' in b.ty[1]):
        r = map_get(I, b, i)
        if r is None:
            raise Panic('map index: key not present', c.sp)
        return tmp(r)
    if isinstance(b, (str, Txt)):
        if isinstance(b, str) and isinstance(i, Obj) and i.adt == 'Range':
            lo = i.f['lo'] or 0
            hi = i.f['hi'] if i.f['hi'] is not None else len(b)
            if isinstance(lo, int) and isinstance(hi, int):
                if hi > len(b) or lo > hi:
                    raise Panic('str slice out of range', c.sp)
                return tmp(b[lo:hi])
        if isinstance(i, Obj) and i.adt == 'Range':
            r = slice_text(I, b, i.f['lo'] or 0, i.f['hi'], c.sp)
            if r is not None:
                return tmp(r)
        raise Undecided('str index')
    if isinstance(i, Obj) and i.adt == 'Range':
        it = seqof(I, b)
        lo = i.f['lo'] or 0
        hi = i.f['hi'] if i.f['hi'] is not None else len(it)
        if lo > hi or hi > len(it):
            raise Panic('slice out of range', c.sp)
        return tmp(Seq(it[lo:hi]))
    return tmp(I.index(b, i, c.sp))


def slice_text(I, b, lo, hi, sp):
    """a slice of partly unknown text, None when unknown"""
    import grammar
    ps = list(grammar.pieces(b)) if isinstance(b, Txt) else [b]

    def cut(k):
        n = 0
        for j, p in enumerate(ps):
            if n == k:
                return j, 0
            if isinstance(p, str):
                e = p.encode()
                if k <= n + len(e):
                    return j, len(e[:k - n].decode(errors='ignore'))
                n += len(e)
                continue
            cl = txt_class(I, p) if known_class(I, p.v) else None
            if cl and I.data.get(('len', p.v.name)) == 1 and all(len(ch.encode()) == 1 for ch in cl[0]):
                n += 1
                continue
            return None
        return (len(ps), 0) if n == k else None
    if not isinstance(lo, int) or not (hi is None or isinstance(hi, int)):
        return None
    a = cut(lo)
    z = (len(ps), 0) if hi is None else cut(hi)
    if a is None or z is None:
        names = [p.v.name for p in ps if not isinstance(p, str) and isinstance(p.v, Sym)]
        wide = any(not isinstance(p, str) and any(len(ch.encode()) > 1 for ch in txt_class(I, p)[0]) for p in ps)
        said = [d for d in I.pc if any(x in d for x in names)]
        if getattr(I, 'anytext', False) and not (said if not wide else [d for d in said if 'len(' not in d]):
            if I.decide('slice %s..%s of %s' % (lo, hi, I.show(b))):
                raise Panic('str slice out of range or inside a character', sp)
        return None
    if a > z:
        raise Panic('str slice out of range', sp)
    out = []
    for j, p in enumerate(ps):
        if j < a[0] or j > z[0] or (j == z[0] and not z[1]):
            continue
        if isinstance(p, str):
            p = p[a[1] if j == a[0] else 0:z[1] if j == z[0] else None]
        out.append(p)
    return mktxt(out)


@nat('IndexMut::index_mut')
def _indexm(I, c):
    i = D(I, c.args[1])
    p = splace(c.args[0])
    b = p.get()
    if isinstance(b, Sym):
        b = I.materialize(b)
        p.set(b)
    if isinstance(i, int) and isinstance(b, Seq):
        if i >= len(b.items):
            raise Panic('index out of bounds', c.sp)
        return Ref(ElemP(p, i), 1)
    raise Undecided('index_mut')


@nat('box_assume_init_into_vec_unsafe', 'boxed::box_assume_init_into_vec_unsafe')
def _boxvec(I, c):
    return D(I, c.args[0])


@nat('intrinsics::write_box_via_move')
def _wbox(I, c):
    return c.args[1]


@nat('Box::new_uninit')
def _boxuninit(I, c):
    return Opaque('uninit')


@nat('vec::from_elem')
def _fromelem(I, c):
    if isinstance(c.args[1], int) and c.args[1] < 1000:
        return Seq([c.args[0]] * c.args[1])
    raise Undecided('vec![x; n]')


# ------------------------------------------------------------ maps
def tomap(I, v):
    v = D(I, v)
    if isinstance(v, Map):
        return v
    if isinstance(v, Sym):
        r = I.refine.get(v.name)
        if isinstance(r, Map):
            return r
        return Map(v.ty[1].split('::')[-1], (), v)
    raise Undecided('map %r' % (v,))


def _basekv(I, b):
    a = b.ty[2]
    if b.ty[1].endswith('Set'):
        return a[0], None
    return a[0], a[1]


def map_get(I, v, k):
    """value or None (splitting)"""
    m = tomap(I, v)
    k = D(I, k)
    for kk, x in reversed(m.items):
        if I.same(kk, k):
            return x
    distinct = isinstance(k, Sym) and k.op == 'fresh'
    for kk, x in reversed(m.items):
        if isinstance(kk, Sym) and kk.op == 'fresh' or distinct:
            continue
        if I.equal(kk, k):
            return x
    if m.base is not None and not distinct:
        if any(I.same(k, r) for r in m.removed):
            return None
        r = I.refine.get(m.base.name)
        if isinstance(r, Map):
            return map_get(I, r, k)
        f = I.data.get('map_lookup')
        if f is not None:
            r = f(I, m.base, k)
            if r is not NotImplemented:
                return r
        if I.decide('%s has %s' % (m.base.name, I.show(k))):
            _, vt = _basekv(I, m.base)
            if vt is None:
                return UNIT
            return I.sym('%s[%s]' % (m.base.name, I.show(k)), vt)
    return None


def map_insert(I, m, k, x):
    k = D(I, k)
    old = map_get(I, m, k)
    items = [(kk, y) for kk, y in m.items if not I.same(kk, k)]
    pos = [i for i, (kk, _) in enumerate(m.items) if I.same(kk, k)]
    if pos:
        items = list(m.items)
        items[pos[0]] = (items[pos[0]][0], x)
        return Map(m.kind, items, m.base, m.removed), old
    rem = m.removed + ((k,) if m.base is not None else ())
    if m.base is not None and isinstance(I.refine.get(m.base.name), Map):
        base = [(a, b) for a, b in I._base_entries(m)]
        hit = False
        out = []
        for a, b in base:
            if I.same(a, k):
                hit = True
                out.append((a, x))
            else:
                out.append((a, b))
        if hit:
            return Map(m.kind, out + list(m.items), None), old
        return Map(m.kind, out + list(m.items) + [(k, x)], None), old
    return Map(m.kind, list(m.items) + [(k, x)], m.base, rem), old


def build_map(I, kind, items):
    m = Map(kind)
    for x in items:
        if kind.endswith('Set'):
            m = map_insert(I, m, D(I, x), UNIT)[0]
        else:
            x = D(I, x)
            m = map_insert(I, m, x.items[0], x.items[1])[0]
    return m


@nat('HashMap::new', 'BTreeMap::new', 'HashSet::new', 'BTreeSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity')
def _mnew(I, c):
    return Map(norm_c(c.f['d']).split('::')[0])


@nat('HashMap::insert', 'BTreeMap::insert')
def _minsert(I, c):
    p = splace(c.args[0])
    m = tomap(I, p.get())
    m2, old = map_insert(I, m, c.args[1], c.args[2])
    p.set(m2)
    I.effects.append(('map_insert', m.base.name if m.base else None, D(I, c.args[1]), c.args[2], old is not None))
    return some(old) if old is not None else NONE


@nat('HashSet::insert', 'BTreeSet::insert')
def _sinsert(I, c):
    p = splace(c.args[0])
    m = tomap(I, p.get())
    m2, old = map_insert(I, m, c.args[1], UNIT)
    p.set(m2)
    return old is None


@nat('HashMap::get', 'BTreeMap::get')
def _mget(I, c):
    r = map_get(I, c.args[0], c.args[1])
    return some(tmp(r)) if r is not None else NONE


@nat('HashMap::get_mut', 'BTreeMap::get_mut')
def _mgetm(I, c):
    p = splace(c.args[0])
    m = tomap(I, p.get())
    k = D(I, c.args[1])
    r = map_get(I, m, k)
    if r is None:
        return NONE
    return some(Ref(map_slot(I, p, m, k, r), 1))


def map_slot(I, p, m, k, r):
    """make sure k has an explicit slot and return its place"""
    for i, (kk, _) in enumerate(m.items):
        if I.same(kk, k):
            p.set(m)
            return MapP(p, i)
    if m.base is not None and isinstance(I.refine.get(m.base.name), Map):
        m = Map(m.kind, I._base_entries(m) + list(m.items), None)
        for i, (kk, _) in enumerate(m.items):
            if I.same(kk, k):
                p.set(m)
                return MapP(p, i)
    for i, (kk, _) in enumerate(m.items):
        if not (isinstance(kk, Sym) and kk.op == 'fresh') and I.pc.get('eq(%s)' % ','.join(sorted((I.show(kk), I.show(k))))):
            p.set(m)
            return MapP(p, i)
    m = Map(m.kind, list(m.items) + [(k, r)], m.base, m.removed + (k,))
    p.set(m)
    return MapP(p, len(m.items) - 1)


@nat('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def _mcontains(I, c):
    return map_get(I, c.args[0], c.args[1]) is not None


@nat('HashMap::remove', 'BTreeMap::remove', 'HashSet::remove', 'BTreeSet::remove', 'HashMap::remove_entry')
def _mremove(I, c):
    p = splace(c.args[0])
    m = tomap(I, p.get())
    k = D(I, c.args[1])
    old = map_get(I, m, k)
    base = m.base
    if base is not None and isinstance(I.refine.get(base.name), Map):
        items = [(a, b) for a, b in I._base_entries(m) + list(m.items) if not I.same(a, k)]
        p.set(Map(m.kind, items))
    else:
        p.set(Map(m.kind, [(a, b) for a, b in m.items if not I.same(a, k)], base, m.removed + ((k,) if base else ())))
    I.effects.append(('map_remove', base.name if base else None, k))
    if m.kind.endswith('Set'):
        return old is not None
    return some(old) if old is not None else NONE


@nat('HashMap::keys', 'BTreeMap::keys', 'HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'BTreeMap::into_values',
     'HashMap::into_keys', 'BTreeMap::into_keys')
def _mkeys(I, c):
    n = c.f['n']
    v = tomap(I, c.args[0])
    k = 0 if 'keys' in n else 1
    its = [x.items[k] for x in I.items(v)]
    if not n.startswith('into_'):
        its = [tmp(x) for x in its]
    return It(its)


@nat('HashMap::values_mut', 'BTreeMap::values_mut')
def _mvaluesm(I, c):
    p = splace(c.args[0])
    m = tomap(I, p.get())
    if m.base is not None:
        m = Map(m.kind, I._base_entries(m) + list(m.items), None)
    p.set(m)
    return It([Ref(MapP(p, i), 1) for i in range(len(m.items))])


@nat('Iterator::max_by_key', 'Iterator::min_by_key')
def _imaxk(I, c):
    its = items(I, c.args[0])
    if not its:
        return NONE
    best, bk = its[0], I.callv(c.args[1], [tmp(its[0])])
    for x in its[1:]:
        k = I.callv(c.args[1], [tmp(x)])
        a, b = D(I, k), D(I, bk)
        r = (a > b) - (a < b) if isinstance(a, int) and isinstance(b, int) else I.order(a, b)
        if r is None:
            raise Undecided('order of %s and %s' % (I.show(a), I.show(b)))
        if (r >= 0) if c.f['n'].startswith('max') else r < 0:
            best, bk = x, k
    return some(best)


@nat('fs::read_to_string')
def _readfile(I, c):
    f = I.data.get('read_to_string')
    if f is None:
        raise Undecided('reading a file')
    return f(I, c)


@nat('BTreeMap::last_key_value', 'BTreeMap::first_key_value')
def _mlast(I, c):
    its = I.items(tomap(I, c.args[0]))
    if not its:
        return NONE
    x = its[-1] if c.f['n'].startswith('last') else its[0]
    return some(Tup((tmp(x.items[0]), tmp(x.items[1]))))


@nat('HashMap::entry', 'BTreeMap::entry')
def _mentry(I, c):
    return Opaque('entry', (splace(c.args[0]), D(I, c.args[1])))


@nat('Entry::or_insert_with', 'Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with_key')
def _orins(I, c):
    p, k = D(I, c.args[0]).data
    m = tomap(I, p.get())
    r = map_get(I, m, k)
    n = c.f['n']
    if r is None:
        if n == 'or_insert':
            x = c.args[1]
        elif n == 'or_insert_with':
            x = I.callv(c.args[1], [])
        elif n == 'or_default':
            t = c.ret[1] if c.ret[0] == 'ref' else c.ret
            x = default_of(I, t)
        else:
            raise Undecided(n)
        m = tomap(I, p.get())
        m = map_insert(I, m, k, x)[0]
        p.set(m)
        r = x
    m = tomap(I, p.get())
    return Ref(map_slot(I, p, m, k, r), 1)


@nat('Entry::and_modify')
def _andmod(I, c):
    p, k = D(I, c.args[0]).data
    m = tomap(I, p.get())
    r = map_get(I, m, k)
    if r is not None:
        I.callv(c.args[1], [Ref(map_slot(I, p, m, k, r), 1)])
    return c.args[0]


# ------------------------------------------------------------ iterators
def items(I, v):
    v = D(I, v)
    if isinstance(v, It) and v.gen is not None:
        if v.gen[0] == 'count':
            raise Undecided('unbounded iterator')
        return pull(I, v)
    return I.items(v)


def pull(I, v):
    out = []
    cell = Cell(v)
    for _ in range(500):
        r = D(I, _gnext(I, cell))
        if I.variant(r) == 'None':
            return out
        out.append(inner(I, r))
    raise Undecided('unbounded iterator')


@nat('Iterator::next', 'DoubleEndedIterator::next_back')
def _next(I, c):
    p = c.args[0].p
    while isinstance(p.get(), Ref):
        p = p.get().p
    v = p.get()
    if isinstance(v, It) and v.gen is not None:
        kind = v.gen[0]
        if kind == 'count':
            p.set(It((), ('count', v.gen[1] + 1)))
            return some(v.gen[1])
        if kind == 'from_fn':
            return I.callv(v.gen[1], [])
        raise Undecided('generator')
    if not isinstance(v, It):
        v = It(I.items(v))
    if not v.items:
        p.set(v)
        return NONE
    if c.f['n'] == 'next_back':
        p.set(It(v.items[:-1]))
        return some(v.items[-1])
    p.set(It(v.items[1:]))
    return some(v.items[0])


@nat('Iterator::map')
def _imap(I, c):
    v = D(I, c.args[0])
    if isinstance(v, It) and v.gen is not None:
        return It((), ('map', v, c.args[1]))
    return It([I.callv(c.args[1], [x]) for x in items(I, v)])


@nat('Iterator::filter')
def _ifilter(I, c):
    return It([x for x in items(I, c.args[0]) if I.truth(I.callv(c.args[1], [tmp(x)]))])


@nat('Iterator::filter_map')
def _ifmap(I, c):
    out = []
    for x in items(I, c.args[0]):
        r = D(I, I.callv(c.args[1], [x]))
        if I.variant(r) == 'Some':
            out.append(inner(I, r))
    return It(out)


@nat('Iterator::flat_map', 'Iterator::flatten')
def _iflat(I, c):
    out = []
    for x in items(I, c.args[0]):
        if len(c.args) > 1:
            x = I.callv(c.args[1], [x])
        y = D(I, x)
        if isinstance(y, Obj) and y.adt == 'std::result::Result':
            if y.var == 'Ok':
                out.append(inner(I, y))
        else:
            isref = isinstance(x, Ref)
            for z in I.items(y):
                out.append(tmp(z) if isref else z)
    return It(out)


@nat('Iterator::chain')
def _ichain(I, c):
    return It(items(I, c.args[0]) + items(I, c.args[1]))


@nat('Iterator::zip')
def _izip(I, c):
    a = items(I, c.args[0])
    b = D(I, c.args[1])
    if isinstance(b, It) and b.gen and b.gen[0] == 'count':
        return It([Tup((x, b.gen[1] + i)) for i, x in enumerate(a)])
    return It([Tup((x, y)) for x, y in zip(a, items(I, b))])


@nat('Iterator::enumerate')
def _ienum(I, c):
    return It([Tup((i, x)) for i, x in enumerate(items(I, c.args[0]))])


@nat('Iterator::rev')
def _irev(I, c):
    return It(list(reversed(items(I, c.args[0]))))


@nat('Iterator::cloned', 'Iterator::copied')
def _icloned(I, c):
    return It([D(I, x) for x in items(I, c.args[0])])


@nat('Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse', 'Iterator::into_iter')
def _iid(I, c):
    return c.args[0]


@nat('Iterator::take')
def _itake(I, c):
    v = D(I, c.args[0])
    n = c.args[1]
    if isinstance(v, It) and v.gen is not None:
        out = []
        cell = Cell(v)
        for _ in range(n):
            r = D(I, _gnext(I, cell))
            if I.variant(r) == 'None':
                break
            out.append(inner(I, r))
        return It(out)
    if not isinstance(n, int):
        raise Undecided('take')
    return It(items(I, v)[:n])


def _gnext(I, cell):
    v = cell.get()
    if v.gen is None:
        if not v.items:
            return NONE
        cell.set(It(v.items[1:]))
        return some(v.items[0])
    k = v.gen[0]
    if k == 'from_fn':
        return I.callv(v.gen[1], [])
    if k == 'count':
        cell.set(It((), ('count', v.gen[1] + 1)))
        return some(v.gen[1])
    if k == 'map':
        c2 = Cell(v.gen[1])
        r = _gnext(I, c2)
        cell.set(It((), ('map', c2.get(), v.gen[2])))
        if I.variant(D(I, r)) == 'None':
            return NONE
        return some(I.callv(v.gen[2], [inner(I, r)]))
    raise Undecided('generator')


def pick(I, tab, ix):
    """the character of `tab` at an unknown index"""
    v = Sym('%s[%r]' % ('tab%d' % len(tab), ix), ('prim', 'char'), 'pick', (tab, ix))
    n = 1 << sum(1 for b in ix.b if b != 0)
    I.data[('cls', v.name)] = (frozenset(tab[:n]), False)
    I.data[('len', v.name)] = 1
    return v


@nat('Uuid::into_bytes', 'Uuid::as_bytes')
def _uuid_bytes(I, c):
    v = D(I, c.args[0])
    if not isinstance(v, Sym):
        raise Undecided('uuid bytes')
    s = Seq(Bits([('%s.byte%d' % (v.name, i), j) for j in range(8)], 'u8') for i in range(16))
    I.data[('uuid', '%s.byte0' % v.name)] = v
    return tmp(s) if c.f['n'] == 'as_bytes' else s


@nat('Uuid::from_bytes')
def _uuid_from(I, c):
    s = D(I, c.args[0])
    if isinstance(s, Seq) and len(s.items) == 16 and all(isinstance(x, Bits) for x in s.items):
        b0 = s.items[0].b[0]
        src = I.data.get(('uuid', b0[0])) if isinstance(b0, tuple) else None
        if src is not None and all(x.b == tuple(('%s.byte%d' % (src.name, i), j) for j in range(8)) for i, x in enumerate(s.items)):
            return src
    return I.app('from_bytes', [s], c.ret)


@nat('Iterator::skip')
def _iskip(I, c):
    if not isinstance(c.args[1], int):
        raise Undecided('skip')
    return It(items(I, c.args[0])[c.args[1]:])


@nat('Iterator::step_by')
def _istep(I, c):
    return It(items(I, c.args[0])[::c.args[1]])


@nat('Iterator::take_while', 'Iterator::skip_while')
def _itw(I, c):
    its = items(I, c.args[0])
    i = 0
    while i < len(its) and I.truth(I.callv(c.args[1], [tmp(its[i])])):
        i += 1
    return It(its[:i] if c.f['n'] == 'take_while' else its[i:])


@nat('Iterator::map_while')
def _imw(I, c):
    out = []
    for x in items(I, c.args[0]):
        r = D(I, I.callv(c.args[1], [x]))
        if I.variant(r) == 'None':
            break
        out.append(inner(I, r))
    return It(out)


@nat('Iterator::inspect')
def _iinsp(I, c):
    its = items(I, c.args[0])
    for x in its:
        I.callv(c.args[1], [tmp(x)])
    return It(its)


@nat('Iterator::for_each')
def _ifor(I, c):
    for x in items(I, c.args[0]):
        I.callv(c.args[1], [x])
    return UNIT


@nat('Iterator::try_for_each')
def _itryfor(I, c):
    for x in items(I, c.args[0]):
        r = D(I, I.callv(c.args[1], [x]))
        if I.variant(r) in ('Err', 'None', 'Break'):
            return r
    if c.ret and c.ret[1].endswith('Option'):
        return some(UNIT)
    return ok(UNIT)


@nat('Iterator::fold')
def _ifold(I, c):
    acc = c.args[1]
    for x in items(I, c.args[0]):
        acc = I.callv(c.args[2], [acc, x])
    return acc


@nat('Iterator::try_fold')
def _itryfold(I, c):
    acc = c.args[1]
    for x in items(I, c.args[0]):
        r = D(I, I.callv(c.args[2], [acc, x]))
        if I.variant(r) in ('Err', 'None'):
            return r
        acc = inner(I, r)
    return some(acc) if c.ret and c.ret[1].endswith('Option') else ok(acc)


@nat('Iterator::reduce')
def _ireduce(I, c):
    its = items(I, c.args[0])
    if not its:
        return NONE
    acc = its[0]
    for x in its[1:]:
        acc = I.callv(c.args[1], [acc, x])
    return some(acc)


@nat('Iterator::any', 'Iterator::all')
def _iany(I, c):
    want = c.f['n'] == 'any'
    for x in items(I, c.args[0]):
        if I.truth(I.callv(c.args[1], [x])) == want:
            return want
    return not want


@nat('Iterator::find')
def _ifind(I, c):
    v = D(I, c.args[0])
    lo = v.gen[1] if isinstance(v, It) and v.gen and v.gen[0] == 'count' else v.f['lo'] if isinstance(
        v, Obj) and v.adt == 'Range' and v.f['hi'] is None else None
    if isinstance(lo, int):
        for i in range(lo, lo + 64):
            if I.truth(I.callv(c.args[1], [tmp(i)])):
                return some(i)
        raise Undecided('find without bound')
    for x in items(I, c.args[0]):
        if I.truth(I.callv(c.args[1], [tmp(x)])):
            return some(x)
    return NONE


@nat('Iterator::find_map')
def _ifindmap(I, c):
    for x in items(I, c.args[0]):
        r = D(I, I.callv(c.args[1], [x]))
        if I.variant(r) == 'Some':
            return r
    return NONE


@nat('Iterator::position')
def _ipos(I, c):
    for i, x in enumerate(items(I, c.args[0])):
        if I.truth(I.callv(c.args[1], [x])):
            return some(i)
    return NONE


@nat('Iterator::count')
def _icount(I, c):
    v = D(I, c.args[0])
    if isinstance(v, Sym):
        return I.app('count', [v], ('prim', 'usize'))
    return len(items(I, v))


@nat('Iterator::last')
def _ilast(I, c):
    its = items(I, c.args[0])
    return some(its[-1]) if its else NONE


@nat('Iterator::nth')
def _inth(I, c):
    i = D(I, c.args[1])
    p = c.args[0]
    its = items(I, p)
    if isinstance(i, Bits) and all(isinstance(x, str) for x in its):
        k = max(j for j, b in enumerate(i.b) if b != 0) + 1
        if 1 << k <= len(its):
            return some(pick(I, ''.join(its), i))
        # some index may be past the end
        if not I.decide('in_range(%r)' % i):
            return NONE
        return some(pick(I, ''.join(its), i))
    if not isinstance(i, int):
        raise Undecided('nth')
    if isinstance(p, Ref):
        p.p.set(It(its[i + 1:]))
    return some(its[i]) if i < len(its) else NONE


@nat('Iterator::sum', 'Iterator::product')
def _isum(I, c):
    its = [D(I, x) for x in items(I, c.args[0])]
    if all(isinstance(x, (int, float)) for x in its):
        if c.f['n'] == 'sum':
            r = sum(its)
        else:
            r = math.prod(its)
        if c.ret == F64:
            r = float(r)
        return r
    return I.app(c.f['n'], its, c.ret)


@nat('Iterator::max', 'Iterator::min')
def _imax(I, c):
    its = items(I, c.args[0])
    if not its:
        return NONE
    if len(its) == 1:
        return some(its[0])
    def plain(v):
        v = D(I, v)
        while isinstance(v, Obj) and v.var == v.adt.split('::')[-1] and len(v.f) == 1:
            v = D(I, next(iter(v.f.values())))
        return v
    vs = [plain(x) for x in its]
    if not all(isinstance(x, (int, str)) for x in vs):
        vs = [D(I, x) for x in its]
    else:
        best = max(vs) if c.f['n'] == 'max' else min(vs)
        return some(its[[i for i, x in enumerate(vs) if x == best][-1 if c.f['n'] == 'max' else 0]])
    best = its[0]
    for x in its[1:]:
        r = I.order(x, best)
        if r is None:
            break
        # the last of equal maxima, the first of equal minima
        if (r >= 0) if c.f['n'] == 'max' else r < 0:
            best = x
    else:
        return some(best)
    t = I.type_of(vs[0])
    return some(tmp(I.app(c.f['n'], vs, t)))


@nat('Iterator::collect', 'FromIterator::from_iter', 'Itertools::collect_vec', 'Itertools::try_collect')
def _collect(I, c):
    v = D(I, c.args[0])
    return collect_into(I, items(I, v), c.ret)


def collect_into(I, its, t):
    if t is None or t[0] != 'adt':
        return Seq(its)
    n = t[1].split('::')[-1]
    if n == 'String':
        return mktxt([D(I, x) if isinstance(D(I, x), (str, Txt)) else Txt((Hole(D(I, x), 'display'),)) for x in its])
    if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        return build_map(I, n, its)
    if n in ('Option', 'Result'):
        out = []
        for x in its:
            x = D(I, x)
            if I.variant(x) in ('None', 'Err'):
                return x
            out.append(inner(I, x))
        r = collect_into(I, out, t[2][0])
        return some(r) if n == 'Option' else ok(r)
    return Seq(its)


@nat('Iterator::unzip')
def _unzip(I, c):
    a, b = [], []
    for x in items(I, c.args[0]):
        a.append(x.items[0])
        b.append(x.items[1])
    return Tup((Seq(a), Seq(b)))


@nat('Iterator::partition')
def _partition(I, c):
    a, b = [], []
    for x in items(I, c.args[0]):
        (a if I.truth(I.callv(c.args[1], [tmp(x)])) else b).append(x)
    return Tup((Seq(a), Seq(b)))


@nat('iter::from_fn')
def _fromfn(I, c):
    return It((), ('from_fn', c.args[0]))


@nat('iter::once')
def _once(I, c):
    return It([c.args[0]])


@nat('iter::empty')
def _iempty(I, c):
    return It()


@nat('iter::repeat_n', 'iter::repeat')
def _irep(I, c):
    if len(c.args) > 1 and isinstance(c.args[1], int):
        return It([c.args[0]] * c.args[1])
    raise Undecided('iter::repeat')


@nat('RangeInclusive::new')
def _ri(I, c):
    a, b = c.args
    if isinstance(a, int) and isinstance(b, int):
        return Obj('Range', 'RangeInclusive', {'lo': a, 'hi': b + 1})
    if isinstance(a, str) and isinstance(b, str):
        return Obj('Range', 'RangeInclusive', {'lo': a, 'hi': chr(ord(b) + 1)})
    return Obj('Range', 'RangeInclusive', {'lo': a, 'hi': I.app('add', [b, 1], ('prim', 'usize'))})


@nat('Itertools::intersperse', 'Iterator::intersperse')
def _intersperse(I, c):
    its = items(I, c.args[0])
    out = []
    for i, x in enumerate(its):
        if i:
            out.append(c.args[1])
        out.append(x)
    return It(out)


@nat('Itertools::sorted', 'Itertools::sorted_unstable', 'Itertools::sorted_by_key')
def _sorted(I, c):
    its = items(I, c.args[0])
    if len(its) < 2:
        return It(its)
    if c.f['n'] != 'sorted_by_key':
        if all(isinstance(D(I, x), (int, str)) for x in its):
            return It(sorted(its, key=lambda x: D(I, x)))
        return It(ordered(I, its, lambda x: D(I, x)))
    return It(ordered(I, its, lambda x: D(I, I.callv(c.args[1], [tmp(x)]))))


@nat('Itertools::unique', 'Itertools::dedup', 'Itertools::unique_by', 'Itertools::all_unique')
def _unique(I, c):
    out = []
    its = items(I, c.args[0])
    key = (lambda x: I.callv(c.args[1], [tmp(x)])) if c.f['n'] == 'unique_by' else (lambda x: x)
    ks = []
    for x in its:
        k = key(x)
        if not any(I.equal(y, k) for y in (ks[-1:] if c.f['n'] == 'dedup' else ks)):
            out.append(x)
            ks.append(k)
    if c.f['n'] == 'all_unique':
        return len(out) == len(its)
    return It(out)


# ------------------------------------------------------------ comparison
@nat('PartialEq::eq', 'PartialEq::ne')
def _eq(I, c):
    r = I.equal(c.args[0], c.args[1])
    return r if c.f['n'] == 'eq' else not r


@nat('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min', 'f64::max', 'f64::min', 'usize::max', 'usize::min')
def _ordmax(I, c):
    a, b = D(I, c.args[0]), D(I, c.args[1])
    n = c.f['n']
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return max(a, b) if n == 'max' else min(a, b)
    r = I.order(a, b)
    if r is not None:
        return c.args[1 if (r <= 0) == (n == 'max') else 0]
    t = I.type_of(a) or I.type_of(b)
    if I.F.show(t) not in ('f64', 'f32') if t is not None else False:
        r = I.weak(a, b)
        if r is None and t[0] == 'prim':
            r = -1 if I.cmp_split(a, b, True) else 1
        if r is not None:
            return c.args[1 if (r < 0) == (n == 'max') else 0]
        if n == 'max':
            return c.args[0 if before(I, b, a) else 1]
        return c.args[1 if before(I, b, a) else 0]
    if t is None and not isinstance(a, (int, float)) and not isinstance(b, (int, float)):
        if n == 'max':
            return c.args[0 if before(I, b, a) else 1]
        return c.args[1 if before(I, b, a) else 0]
    return I.app(n, [a, b], c.ret)


ORDERING = 'std::cmp::Ordering'


@nat('Ord::cmp', 'PartialOrd::partial_cmp')
def _ordcmp(I, c):
    a, b = D(I, c.args[0]), D(I, c.args[1])
    cmp = lambda x, y: 'Less' if before(I, x, y) else 'Greater' if before(I, y, x) else 'Equal'
    fs = lambda x: [x]
    if isinstance(a, Obj) and isinstance(b, Obj) and a.adt == b.adt and a.var == b.var and not a.adt.startswith('std::option'):
        t = I.type_of(a)
        n = c.f['n']
        own = I.F.impl_for('std::cmp::Ord' if n == 'cmp' else 'std::cmp::PartialOrd', [t] if n == 'cmp' else [t, t])
        if a.adt.endswith('PhantomData'):
            r = 'Equal'
        elif own is not None:
            if not own[0]['derived']:
                key = own[0]['imap'][n][0]
                return I.run_fn(I.F.fns[key], own[1], c.args)
            r = 'Equal'
            for x in a.f:
                r = cmp(D(I, I.getfield(a, x)), D(I, I.getfield(b, x)))
                if r != 'Equal':
                    break
        else:
            raise Undecided('order of %s' % I.show(a))
    elif isinstance(a, (int, str, Tup, Sym)) and isinstance(b, (int, str, Tup, Sym)) and I.type_of(a) != ('prim', 'f64'):
        r = cmp(a, b)
    else:
        return I.app(c.f['n'], [a, b], c.ret)
    o = Obj(ORDERING, r, {})
    return o if c.f['n'] == 'cmp' else some(o)


@nat('Ordering::reverse', 'Ordering::then', 'Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def _ordering(I, c):
    v = I.variant(D(I, c.args[0]))
    n = c.f['n']
    if n == 'reverse':
        return Obj(ORDERING, {'Less': 'Greater', 'Greater': 'Less'}.get(v, v), {})
    if n == 'then':
        return c.args[1] if v == 'Equal' else c.args[0]
    return v in {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal'), 'eq': ('Equal',), 'ne': ('Less', 'Greater')}[n[3:]]


@nat('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _cmpop(I, c):
    return I.binop(c.f['n'].capitalize(), D(I, c.args[0]), D(I, c.args[1]), None, c.sp)


def _unit_vector(I, n, a, b):
    """v / |v| in its various forms"""
    for v, k in ((a, b), (b, a)):
        recip = False
        if isinstance(k, Sym) and k.op == 'div' and isinstance(k.args[0], float) and k.args[0] == 1.0:
            k, recip = D(I, k.args[1]), True
        if not isinstance(k, Sym) or k.op not in ('DVec2::length', 'DVec3::length', 'DVec2::length_recip', 'DVec3::length_recip'):
            continue
        if (n == 'div' and v is a and k.op.endswith('length') and not recip or n == 'mul' and (k.op.endswith('_recip') != recip)) \
                and I.same(k.args[0], v):
            return k.op.split('::')[0] + '::normalize'
    return None


@nat('DVec2::normalize_or_zero', 'DVec3::normalize_or_zero', 'DVec2::normalize_or', 'DVec3::normalize_or')
def _normalize_or(I, c):
    return I.app(norm_c(c.f['d']).split('::')[0] + '::normalize', [c.args[0]], c.ret)


@nat('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem')
def _arith(I, c):
    a, b = D(I, c.args[0]), D(I, c.args[1])
    u = _unit_vector(I, c.f['n'], a, b) if c.f['n'] in ('mul', 'div') else None
    if u:
        return I.app(u, [a if I.type_of(a) == c.ret else b], c.ret)
    if isinstance(a, (str, Txt)) or (isinstance(a, Sym) and a.ty == STRING):
        return mktxt([str_pieces(I, a), str_pieces(I, b)])
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return I.binop(c.f['n'].capitalize(), a, b, c.ret, c.sp)
    return I.app(c.f['n'], [a, b], c.ret)


@nat('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign')
def _aarith(I, c):
    p = c.args[0].p
    a, b = D(I, p.get()), D(I, c.args[1])
    n = c.f['n'][:3]
    if isinstance(a, (str, Txt)) or (isinstance(a, Sym) and a.ty == STRING):
        p.set(mktxt([str_pieces(I, a), str_pieces(I, b)]))
        return UNIT
    t = I.type_of(a)
    p.set(I.app(n, [a, b], t))
    return UNIT


@nat('usize::checked_add', 'usize::checked_sub', 'u64::checked_add', 'i64::checked_add')
def _checked(I, c):
    a, b = D(I, c.args[0]), D(I, c.args[1])
    if isinstance(a, int) and isinstance(b, int):
        return some(a + b if c.f['n'].endswith('add') else a - b)
    if I.decide('overflow(%s,%s)' % (I.show(a), I.show(b))):
        return NONE
    return some(I.app('add' if c.f['n'].endswith('add') else 'sub', [a, b], c.ret[2][0]))


@nat('usize::saturating_add', 'usize::wrapping_add')
def _satadd(I, c):
    a, b = D(I, c.args[0]), D(I, c.args[1])
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return I.app(c.f['n'], [a, b], c.ret)


@nat('f64::fract', 'f64::abs', 'f64::floor', 'f64::trunc', 'f64::round', 'f64::ceil')
def _fract(I, c):
    v = D(I, c.args[0])
    n = c.f['n']
    if isinstance(v, float):
        return {'fract': math.modf(v)[0], 'abs': abs(v), 'floor': float(math.floor(v)), 'trunc': float(math.trunc(v)),
                'round': float(round(v)), 'ceil': float(math.ceil(v))}[n]
    return I.app(n, [v], F64)


@nat('i64::abs', 'i64::signum', 'i64::wrapping_abs', 'i64::saturating_abs', 'i32::abs', 'isize::abs')
def _iabs(I, c):
    v = D(I, c.args[0])
    if isinstance(v, int):
        return (v > 0) - (v < 0) if c.f['n'] == 'signum' else abs(v)
    return I.app(c.f['n'], [v], c.ret)


@nat('BVec2::any', 'BVec3::any', 'BVec2::all', 'BVec3::all')
def _bvec(I, c):
    v = D(I, c.args[0])
    ops = {'cmpeq': 'Eq', 'cmpne': 'Ne', 'cmplt': 'Lt', 'cmple': 'Le', 'cmpgt': 'Gt', 'cmpge': 'Ge'}
    n = v.op.split('::')[-1] if isinstance(v, Sym) and v.op else None
    if n not in ops:
        return NotImplemented
    every = c.f['n'] == 'all'
    for x in 'xyz'[:int(norm_c(c.f['d'])[4])]:
        r = I.truth(I.binop(ops[n], *[D(I, I.getfield(D(I, a), x)) for a in v.args[:2]], ('prim', 'bool'), c.sp))
        if r != every:
            return r
    return every


@nat('f64::is_nan', 'f64::is_infinite', 'f64::is_finite')
def _isnan(I, c):
    v = D(I, c.args[0])
    if isinstance(v, float):
        return {'is_nan': math.isnan(v), 'is_infinite': math.isinf(v), 'is_finite': math.isfinite(v)}[c.f['n']]
    return I.decide('%s(%s)' % (c.f['n'], I.show(v)))


@nat('DVec3::new', 'DVec2::new')
def _dvnew(I, c):
    n = norm_c(c.f['d']).split('::')[0]
    return Obj('bevy_math::' + n, n, dict(zip('xyz', c.args)))


@nat('DVec3::truncate', 'DVec3::xy', 'Vec3Swizzles::xy')
def _dvtrunc(I, c):
    v = I.expand(D(I, c.args[0]))
    return Obj('bevy_math::DVec2', 'DVec2', {'x': v.f['x'], 'y': v.f['y']})


# ------------------------------------------------------------ TypeId / Any
@nat('TypeId::of')
def _tyof(I, c):
    return TyId(c.targs[0])


@nat('Any::type_id')
def _tyid(I, c):
    v = D(I, c.args[0])
    if isinstance(v, Sym) and v.ty[0] == 'dyn':
        r = I.refine.get(v.name)
        return TyId(v if r is None else r)
    t = I.type_of(v)
    if t is None:
        raise Undecided('type_id')
    return TyId(t)


@nat('any::type_name', 'any::type_name_of_val')
def _tyname(I, c):
    return tmp('type_name')


@nat('dyn Any::is')
def _anyis(I, c):
    v = D(I, c.args[0])
    if isinstance(v, Sym) and v.ty[0] == 'dyn':
        return I.is_type(v, c.targs[-1])
    return I.type_of(v) == c.targs[-1]


@nat('dyn Any::downcast_ref', 'dyn Any::downcast_mut', 'Box::downcast', 'Rc::downcast')
def _downcast(I, c):
    a = c.args[0]
    v = D(I, a)
    want = c.targs[-1] if c.targs else None
    if want is None or want[0] == 'param':
        raise Undecided('downcast target')
    if isinstance(v, Sym) and v.ty[0] == 'dyn':
        t = want if I.is_type(v, want) else None
    else:
        t = I.type_of(v)
    if isinstance(v, Obj) and v.adt == want[1]:
        hit = True
    else:
        hit = t == want
    if c.f['n'] == 'downcast':
        return ok(v) if hit else err(v)
    if not hit:
        return NONE
    if isinstance(v, Sym) and v.ty[0] == 'dyn':
        x = I.sym(v.name + '!', want)
        if c.f['n'] == 'downcast_mut':
            p = splace(a)
            p.set(x)
            return some(Ref(p, 1))
        return some(tmp(x))
    if c.f['n'] == 'downcast_mut':
        return some(Ref(splace(a), 1))
    return some(tmp(v))


# ------------------------------------------------------------ strings
def str_pieces(I, v):
    v = D(I, v)
    if isinstance(v, (str, Txt)):
        return v
    if isinstance(v, Sym):
        return Txt((Hole(v, 'display'),))
    f = Fmt()
    I.display(v, f)
    return mktxt(f.out)


@nat('String::push_str', 'String::push', 'Write::write_str', 'Write::write_char')
def _pushstr(I, c):
    p = c.args[0].p
    while isinstance(p.get(), Ref):
        p = p.get().p
    v = p.get()
    if isinstance(v, Fmt):
        v.out.append(str_pieces(I, c.args[1]))
    else:
        p.set(mktxt([str_pieces(I, v), str_pieces(I, c.args[1])]))
    return ok(UNIT) if c.f['n'].startswith('write') else UNIT


@nat('ToString::to_string')
def _tostring(I, c):
    v = D(I, c.args[0])
    if isinstance(v, (str, Txt)) or (isinstance(v, Sym) and v.ty in (STR, STRING)):
        return v
    w = I.data.get('whole')
    if w is not None and isinstance(v, Obj) and v.adt == w:
        return Txt((Hole(v, 'display'),))
    return I.to_text(v)


def strconst(I, v):
    v = D(I, v)
    return v if isinstance(v, str) else None


@nat('str::replace', 'String::replace')
def _replace(I, c):
    s, a, b = [D(I, x) for x in c.args[:3]]
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b)
    if isinstance(s, Sym) and known_class(I, s):
        s = Txt((Hole(s, 'display'),))
    if isinstance(s, Txt) and isinstance(a, str) and a and isinstance(b, str):
        return replace_txt(I, s, a, b)
    return I.app('replace', [s, a, b], STRING)


def known_class(I, s):
    return isinstance(s, Sym) and s.op is None and (
        ('cls', s.name) in I.data or (I.data.get('cls_of') and I.data['cls_of'](I, s) is not None))


def txt_class(I, h):
    import grammar
    return grammar.cls(I, h)


def no_text(I, v, depth=0):
    v = D(I, v)
    if isinstance(v, Obj):
        return depth < 6 and all(no_text(I, x, depth + 1) for x in v.f.values())
    if isinstance(v, Sym):
        return v.ty[0] == 'prim' and v.ty[1] != 'str'
    return isinstance(v, (int, float))


def replace_txt(I, s, a, b):
    """replace in a text with unknown parts: exact when no occurrence of the
    pattern can touch an unknown part"""
    ps = s.ps
    # positions: (piece index, offset); unknown parts loop on their class
    def step(states, ch, first):
        out = set()
        for i, o, t in states:
            # closure over empty/finished pieces
            work = [(i, o, t)]
            while work:
                i, o, t = work.pop()
                if i >= len(ps):
                    continue
                p = ps[i]
                if isinstance(p, str):
                    if o >= len(p):
                        work.append((i + 1, 0, t))
                        continue
                    if p[o] == ch:
                        out.add((i, o + 1, t))
                else:
                    if not isinstance(p.v, Sym) and no_text(I, p.v):
                        continue        # printed numbers hold none of the patterns
                    c, e = txt_class(I, p)
                    if ch in c:
                        out.add((i, 0, True))
                    if e and not first:
                        work.append((i + 1, 0, True))
        return out
    start = set()
    for i, p in enumerate(ps):
        if isinstance(p, str):
            start |= {(i, o, False) for o in range(len(p))}
        else:
            start.add((i, 0, False))
    cur = start
    for k, ch in enumerate(a):
        cur = step(cur, ch, k == 0)
    if any(t for i, o, t in cur):
        if getattr(I, 'anytext', False) or any(not isinstance(p, str) and isinstance(p.v, Sym) and p.v.ty in (STRING, STR) and not known_class(I, p.v)
               for p in ps):
            return I.app('replace', [s, a, b], STRING)      # some function of the unknown text
        raise Undecided('replace %r in text with unknown parts' % a)
    return mktxt([p.replace(a, b) if isinstance(p, str) else p for p in ps])


@nat('str::trim', 'str::trim_start', 'str::trim_end')
def _trim(I, c):
    s = D(I, c.args[0])
    if isinstance(s, str):
        return tmp({'trim': s.strip(), 'trim_start': s.lstrip(), 'trim_end': s.rstrip()}[c.f['n']])
    if isinstance(s, Sym) and known_class(I, s):
        s = Txt((Hole(s, 'display'),))
    if isinstance(s, Txt):
        ps = list(s.ps)
        done = True
        for side in (['trim_start', 'trim_end'] if c.f['n'] == 'trim' else [c.f['n']]):
            k = 0 if side == 'trim_start' else -1
            while ps:
                p = ps[k]
                if isinstance(p, str):
                    p = p.lstrip() if k == 0 else p.rstrip()
                    if p:
                        ps[k] = p
                        break
                    ps.pop(k)
                    continue
                cl, e = txt_class(I, p) if isinstance(p.v, Sym) and p.v.ty in (STRING, STR) else (frozenset(' '), True)
                if e or not (isinstance(p.v, Sym) and I.data.get(('trimmed', p.v.name)) or not any(x.isspace() for x in cl)):
                    done = False
                break
        if done:
            return tmp(mktxt(ps))
    return I.app(c.f['n'], [s], ('ref', STR, 0))


@nat('str::to_uppercase', 'str::to_lowercase', 'str::to_ascii_uppercase', 'str::to_ascii_lowercase')
def _case(I, c):
    s = D(I, c.args[0])
    if isinstance(s, str):
        return s.upper() if 'upper' in c.f['n'] else s.lower()
    return I.app(c.f['n'], [s], STRING)


@nat('str::len', 'String::len')
def _slen(I, c):
    s = D(I, c.args[0])
    if isinstance(s, str):
        return len(s.encode())
    return I.app('len', [s], ('prim', 'usize'))


@nat('str::is_empty', 'String::is_empty')
def _sempty(I, c):
    s = D(I, c.args[0])
    if isinstance(s, str):
        return s == ''
    if isinstance(s, Txt) and any(isinstance(p, str) for p in s.ps):
        return False
    for p in (s.ps if isinstance(s, Txt) else ()):
        if isinstance(p.v, Sym) and p.v.ty in (STRING, STR) and not txt_class(I, p)[1]:
            return False
    if known_class(I, s) and not txt_class(I, Hole(s, 'display'))[1]:
        return False
    return I.isempty(s)


@nat('str::chars', 'str::char_indices', 'str::bytes')
def _chars(I, c):
    s = D(I, c.args[0])
    if isinstance(s, str):
        if c.f['n'] == 'char_indices':
            return It([Tup((i, ch)) for i, ch in enumerate(s)])
        if c.f['n'] == 'bytes':
            return It(list(s.encode()))
        return It(list(s))
    h = I.data.get('chars_hook')
    if h is not None:
        return h(I, s, c)
    if isinstance(s, Txt) and all(isinstance(p, str) or I.data.get(('cls', getattr(p.v, 'name', None))) for p in s.ps):
        out = []
        for p in s.ps:
            if isinstance(p, str):
                out.extend(p)
            else:
                if p.v.ty == ('prim', 'char'):
                    out.append(p.v)
                else:
                    out.append(Sym('chars of ' + p.v.name, ('prim', 'char'), 'charsof', (p,)))
        return It(out)
    return Sym('chars(%s)' % I.show(s), ('alias', 'Chars'), 'iterapp', (s,))


@nat('str::as_bytes', 'String::as_bytes', 'String::into_bytes')
def _asbytes(I, c):
    s = D(I, c.args[0])
    if isinstance(s, str):
        return tmp(Seq(list(s.encode())))
    raise Undecided('as_bytes')


@nat('str::contains', 'str::starts_with', 'str::ends_with')
def _scontains(I, c):
    s, x = D(I, c.args[0]), c.args[1]
    x = D(I, x)
    n = c.f['n']
    if isinstance(s, str) and isinstance(x, str):
        return {'contains': x in s, 'starts_with': s.startswith(x), 'ends_with': s.endswith(x)}[n]
    if isinstance(s, str) and isinstance(x, Sym) and n == 'contains':
        cl = I.data.get(('cls', x.name))
        if cl:
            r = {ch in s for ch in cl[0]}
            if len(r) == 1:
                return r.pop()
    if isinstance(s, str) and isinstance(x, (Clo, FnV, PyFn)):
        if n == 'contains':
            return any(I.truth(I.callv(x, [ch])) for ch in s)
    return I.decide('%s(%s,%s)' % (n, I.show(s), I.show(x)))


@nat('str::find', 'str::rfind')
def _sfind(I, c):
    s, x = D(I, c.args[0]), D(I, c.args[1])
    if isinstance(s, str) and isinstance(x, str):
        i = s.find(x) if c.f['n'] == 'find' else s.rfind(x)
        return some(i) if i >= 0 else NONE
    if isinstance(s, str) and isinstance(x, Sym) and x.op == 'pick' and c.f['n'] == 'find' and s.isascii():
        tab, ix = x.args
        n = 1 << sum(1 for b in ix.b if b != 0)
        if [s.find(ch) for ch in tab[:n]] == list(range(n)):
            return some(ix.cast('usize'))
    h = x.ps[0] if isinstance(x, Txt) and len(x.ps) == 1 else x.args[0] if isinstance(x, Sym) and x.op == 'charsof' else None
    if isinstance(s, str) and isinstance(h, Hole) and I.data.get(('len', h.v.name)) == 1:
        chars = I.data[('cls', h.v.name)][0]
        if chars <= set(s):
            return some(I.app('find', [s, x], ('prim', 'usize')))
        if not chars & set(s):
            return NONE
    return I.app('find', [s, x], c.ret)


@nat('str::split', 'str::split_whitespace', 'str::lines')
def _ssplit(I, c):
    s = D(I, c.args[0])
    x = D(I, c.args[1]) if len(c.args) > 1 else None
    if isinstance(s, str) and (isinstance(x, str) or x is None):
        if c.f['n'] == 'lines':
            return It([tmp(y) for y in s.splitlines()])
        return It([tmp(y) for y in (s.split(x) if x else s.split())])
    raise Undecided('split')


@nat('str::strip_prefix', 'str::strip_suffix')
def _sstrip(I, c):
    s, x = D(I, c.args[0]), D(I, c.args[1])
    if isinstance(s, str) and isinstance(x, str):
        if c.f['n'] == 'strip_prefix':
            return some(tmp(s[len(x):])) if s.startswith(x) else NONE
        return some(tmp(s[:len(s) - len(x)])) if s.endswith(x) else NONE
    return I.app(c.f['n'], [s, x], c.ret)


@nat('str::repeat')
def _srepeat(I, c):
    s = D(I, c.args[0])
    if isinstance(s, str) and isinstance(c.args[1], int):
        return s * c.args[1]
    raise Undecided('repeat')


def _charpred(name, f):
    @nat('char::' + name)
    def g(I, c):
        ch = D(I, c.args[0])
        if isinstance(ch, str):
            return f(ch)
        return I.decide('%s(%s)' % (name, I.show(ch)))
    return g


_charpred('is_alphanumeric', str.isalnum)
_charpred('is_alphabetic', str.isalpha)
_charpred('is_numeric', str.isnumeric)
_charpred('is_ascii_digit', lambda ch: ch in '0123456789')
_charpred('is_ascii_alphanumeric', lambda ch: ch.isalnum() and ord(ch) < 128)
_charpred('is_ascii_alphabetic', lambda ch: ch.isalpha() and ord(ch) < 128)
_charpred('is_ascii_uppercase', lambda ch: 'A' <= ch <= 'Z')
_charpred('is_whitespace', str.isspace)
_charpred('is_ascii_whitespace', lambda ch: ch in ' \t\n\r\x0c')
_charpred('is_ascii', lambda ch: ord(ch) < 128)
_charpred('is_uppercase', str.isupper)


# ------------------------------------------------------------ fmt
@nat('Argument::new_display', 'Argument::new_debug', 'Argument::new_upper_exp', 'Argument::new_lower_exp', 'Argument::from_usize',
     'Argument::new_upper_hex', 'Argument::new_lower_hex', 'Argument::new_binary', 'Argument::new_octal')
def _arg(I, c):
    k = c.f['n']
    return Opaque('fmtarg', (k[4:] if k.startswith('new_') else 'usize', c.args[0]))


@nat('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const')
def _args(I, c):
    tmpl = D(I, c.args[0])
    args = list(D(I, c.args[1]).items) if len(c.args) > 1 else []
    bs = list(tmpl.items)
    return Opaque('Arguments', decode_template(bs, args))


def decode_template(bs, args):
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 128:
            out.append(bytes(bs[i + 1:i + 1 + b]).decode('utf8'))
            i += 1 + b
        elif b == 128:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(bytes(bs[i + 3:i + 3 + n]).decode('utf8'))
            i += 3 + n
        elif b & 0xC0 == 0xC0:
            i += 1
            spec = {}
            if b & 1:
                spec['flags'] = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
            if b & 2:
                spec['width'] = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 4:
                spec['prec'] = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 16:
                spec['width'] = D_arg(args, spec['width'])
            if b & 32:
                spec['prec'] = D_arg(args, spec['prec'])
            a = args[nxt]
            nxt += 1
            out.append((a.data[0], spec, a.data[1]))
        else:
            raise Undecided('format template')
    return out


def D_arg(args, i):
    v = args[i].data[1]
    while isinstance(v, Ref):
        v = v.p.get()
    return v


@nat('Arguments::from_str', 'Arguments::from_str_nonconst')
def _argsstr(I, c):
    return Opaque('Arguments', [D(I, c.args[0])])


def render(I, pieces, out):
    for p in pieces:
        if isinstance(p, (str, Txt)):
            out.append(p)
            continue
        kind, spec, v = p
        f = Fmt()
        f.spec = spec
        if kind == 'display':
            I.display(v, f)
        elif kind == 'usize':
            I.display(v, f)
        elif kind in ('upper_exp', 'lower_exp'):
            x = D(I, v)
            f.out.append(Txt((Hole(x, '%s.%s' % (kind, spec.get('prec'))),)))
        elif kind == 'debug':
            x = D(I, v)
            f.out.append(Txt((Hole(x, 'debug'),)))
        else:
            f.out.append(Txt((Hole(D(I, v), kind),)))
        out.extend(f.out)


@nat('Formatter::write_fmt', 'Write::write_fmt')
def _writefmt(I, c):
    f = D(I, c.args[0])
    a = D(I, c.args[1])
    if isinstance(f, (str, Txt)):
        out = []
        render(I, a.data, out)
        p = splace(c.args[0])
        p.set(mktxt([f] + out))
        return ok(UNIT)
    if not isinstance(f, Fmt):
        raise Undecided('write_fmt to %r' % (f,))
    render(I, a.data, f.out)
    return ok(UNIT)


@nat('Formatter::write_str', 'Formatter::write_char', 'Formatter::pad')
def _writestr(I, c):
    f = D(I, c.args[0])
    if not isinstance(f, Fmt):
        raise Undecided('write_str to %r' % (f,))
    f.out.append(str_pieces(I, c.args[1]))
    return ok(UNIT)


@nat('fmt::format', 'format::format_inner')
def _format(I, c):
    out = []
    render(I, D(I, c.args[0]).data, out)
    return mktxt(out)


@nat('Display::fmt')
def _dispfmt(I, c):
    f = D(I, c.args[1])
    I.display(c.args[0], f)
    return ok(UNIT)


@nat('UpperExp::fmt', 'LowerExp::fmt')
def _expfmt(I, c):
    f = D(I, c.args[1])
    f.out.append(Txt((Hole(D(I, c.args[0]), ('upper_exp' if 'Upper' in c.f['d'] else 'lower_exp') + '.None'),)))
    return ok(UNIT)


@nat('Debug::fmt')
def _dbgfmt(I, c):
    f = D(I, c.args[1])
    f.out.append(Txt((Hole(D(I, c.args[0]), 'debug'),)))
    return ok(UNIT)


def display(I, v, f):
    v = D(I, v)
    spec = f.spec or {}
    if isinstance(v, bool):
        f.out.append('true' if v else 'false')
    elif isinstance(v, int):
        s = str(v)
        if spec.get('width'):
            w = spec['width']
            if w > len(s):
                raise Undecided('padded integer')
        f.out.append(s)
    elif isinstance(v, float):
        if spec.get('prec') is not None:
            f.out.append('%.*f' % (spec['prec'], v))
        else:
            f.out.append(rust_f64(v))
    elif isinstance(v, (str, Txt)):
        f.out.append(v)
    elif isinstance(v, Sym):
        t = v.ty
        if t[0] == 'dyn':
            t = I.dyn(v)
            v = I.sym(v.name + '!', t)
            v = D(I, v)
        if t[0] == 'adt' and t[1] in I.F.adts:
            atomic = I.data.get('atomic')
            if isinstance(v, Sym) and (atomic is None or atomic(t)) and I.refine.get(v.name) is None:
                f.out.append(Txt((Hole(v, 'nt'),)))
                return
            _call_display(I, v, t, f)
        elif t[0] == 'adt' and t[1] in ('std::borrow::Cow',):
            f.out.append(Txt((Hole(v, 'display'),)))
        else:
            conv = 'display'
            if spec.get('prec') is not None:
                conv = 'display.%s' % spec['prec']
            elif spec.get('width'):
                conv = 'display:w%s' % spec['width']
            f.out.append(Txt((Hole(v, conv),)))
    elif isinstance(v, Obj):
        _call_display(I, v, ('adt', v.adt, tuple(v.targs)), f)
    elif isinstance(v, Opaque) and v.what == 'Arguments':
        render(I, v.data, f.out)
    else:
        f.out.append(Txt((Hole(v, 'display'),)))


def _call_display(I, v, t, f):
    r = I.F.impl_for('std::fmt::Display', [t])
    if r is None:
        f.out.append(Txt((Hole(v, 'display'),)))
        return
    k = r[0]['imap']['fmt'][0]
    g = Fmt()
    h = I.hooks.get(k)
    args = [tmp(v), Ref(Cell(g), 1)]
    if h is not None:
        x = h(I, Call({'d': k, 'a': [], 'n': 'fmt'}, [], args, None, None, t))
        if x is not NotImplemented:
            f.out.extend(g.out)
            return
    res = I.run_fn(I.F.fns[k], dict(r[1]), args)
    f.out.extend(g.out)
    res = D(I, res)
    if isinstance(res, Obj) and res.var == 'Err':
        raise Panic('Display implementation of %s returns an error' % I.F.show(t))


def rust_f64(v):
    if v != v:
        return 'NaN'
    if math.isinf(v):
        return 'inf' if v > 0 else '-inf'
    if v == int(v) and abs(v) < 1e300:
        s = str(int(v))
        if v == 0 and math.copysign(1, v) < 0:
            s = '-0'
        return s
    from decimal import Decimal
    return format(Decimal(repr(v)), 'f')


N['__display__'] = display
N['__items__'] = items


# ------------------------------------------------------------ misc closures
@nat('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _fncall(I, c):
    a = D(I, c.args[1])
    return I.callv(c.args[0], list(a.items) if isinstance(a, Tup) else [a], c.ret)


@nat('Utc::now', 'Local::now', 'Uuid::new_v4', 'SystemTime::now', 'Instant::now')
def _now(I, c):
    n = norm_c(c.f['d'])
    I.effects.append(('impure', n))
    return I.sym(I.freshname(n), c.ret, 'fresh')


@nat('DateTime::from_timestamp_millis', 'DateTime::from_timestamp_micros')
def _fromtsm(I, c):
    a = D(I, c.args[0])
    if I.decide('in_range:%s(%s)' % (c.f['n'], I.show(a))):
        return some(I.app(c.f['n'], [a], c.ret[2][0]))
    return NONE


@nat('DateTime::from_timestamp')
def _fromts(I, c):
    a = D(I, c.args[0])
    b = D(I, c.args[1])
    nm = 'from_timestamp(%s,%s)' % (I.show(a), I.show(b))
    if isinstance(a, Sym) and a.op == 'timestamp' and b == 0:
        # a value obtained from a DateTime is in range
        return some(I.app('secs', [a.args[0]], c.ret[2][0]) if not I.data.get('ts_whole') else a.args[0])
    if isinstance(a, int):
        return some(I.app('from_timestamp', [a, b], c.ret[2][0]))
    if I.decide('in_range:' + nm):
        return some(I.app('from_timestamp', [a, b], c.ret[2][0]))
    return NONE


RFC3339 = re.compile(r'%Y-%m-%d[Tt ]%H:%M:%S(\.\d+|%\.?\d?f)?([Zz]|%:z|[+-]00:00)$')


@nat('DateTime::format')
def _dtformat(I, c):
    d, f = D(I, c.args[0]), D(I, c.args[1])
    if not isinstance(f, str) or not isinstance(d, Sym):
        raise Undecided('date format')
    return dttext(I, d, f)


@nat('DateTime::to_rfc3339')
def _dtrfc(I, c):
    return dttext(I, D(I, c.args[0]), '%Y-%m-%dT%H:%M:%S%.f%:z')


def dttext(I, d, f):
    f = f.replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S').replace('%R', '%H:%M')
    nm = 'format(%s,%r)' % (d.name, f)
    v = Sym(nm, STRING, 'dtformat', (d, f))
    lits = set(re.sub(r'%[-_0]?\.?\d?:*[a-zA-Z]', '', f))
    I.data[('cls', nm)] = (frozenset(lits | set('0123456789') | (set('+-.:') if re.search('%[.:+]', f) else set())), False)
    return v


@nat('DateTime::parse_from_rfc3339', 'NaiveDateTime::parse_from_str')
def _dtparse(I, c):
    s = D(I, c.args[0])
    if isinstance(s, Sym):
        s = Txt((Hole(s, 'display'),))
    if 'rfc3339' in c.f['n'] and isinstance(s, Txt):
        hs = [p for p in s.ps if isinstance(p, Hole)]
        if len(hs) == 1 and isinstance(hs[0].v, Sym) and hs[0].v.op == 'dtformat':
            d, f = hs[0].v.args
            full = ''.join(p if isinstance(p, str) else f for p in s.ps)
            if RFC3339.match(full):
                return ok(d)
            return err(Opaque('ParseError'))
    if I.decide('parses(%s)' % I.show(s)):
        return ok(I.app('date', [s], c.ret[2][0]))
    return err(Opaque('ParseError'))


@nat('DateTime::with_timezone', 'DateTime::to_utc', 'DateTime::naive_utc', 'NaiveDateTime::and_utc')
def _dtz(I, c):
    return D(I, c.args[0])


@nat('DateTime::timestamp_millis', 'DateTime::timestamp_micros', 'DateTime::timestamp_subsec_millis')
def _tsother(I, c):
    return I.app(c.f['n'], [D(I, c.args[0])], c.ret)


@nat(*('%s::%s' % (t, n) for t in ('u16', 'u32', 'u64', 'usize', 'u128') for n in ('to_be_bytes', 'to_le_bytes', 'from_be_bytes', 'from_le_bytes')))
def _intbytes(I, c):
    n = c.f['n']
    v = D(I, c.args[0])
    if n.startswith('to'):
        if isinstance(v, bool) or not isinstance(v, (int, Bits)):
            return I.app(n, [v], c.ret)
        t = v.t if isinstance(v, Bits) else I.F.show(c.f['a'][0]) if c.f['a'] else None
        if isinstance(v, int):
            t = c.f['d'].split('::')[-2].replace('{impl', '') if t is None else t
            w = c.ret[2] if c.ret and c.ret[0] == 'array' and isinstance(c.ret[2], int) else None
            if w is None:
                raise Undecided('bytes of %r' % v)
            out = [(v >> (8 * i)) & 255 for i in range(w)]
        else:
            out = [Bits(v.b[i:i + 8], 'u8').simp() for i in range(0, len(v.b), 8)]
        return Seq(out if 'le' in n else out[::-1])
    its = seqof(I, v)
    if not all(isinstance(D(I, x), (int, Bits)) for x in its):
        raise Undecided('bytes')
    its = its if 'le' in n else its[::-1]
    b = ()
    for x in its:
        x = D(I, x)
        b += (x if isinstance(x, Bits) else Bits.of(x, 'u8')).b
    return Bits(b, {2: 'u16', 4: 'u32', 8: 'u64', 16: 'u128'}[len(its)]).simp()


@nat('Uuid::nil', 'Uuid::max')
def _uuidconst(I, c):
    return Sym(c.f['n'] + ' identifier', c.ret)


@nat('DateTime::timestamp')
def _ts(I, c):
    a = D(I, c.args[0])
    if isinstance(a, Sym) and a.op == 'from_timestamp':
        return a.args[0]
    return I.app('timestamp', [a], c.ret)


N['__pick__'] = pick
