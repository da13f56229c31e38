"""Abstract interpreter over THIR.

Values are abstract: constants, ADT objects whose leaves may be unknown
(`Sym`), text made of literal pieces and holes, and unknowns that are refined
lazily (an unknown enum is split into its variants when code matches on it, an
unknown condition into both outcomes).  Every split is recorded in a decision
vector and all vectors are enumerated, so the result of an analysis is the set
of all abstract paths.  No solver is involved and nothing of the analysed
crate is executed."""
import re
import sys

sys.setrecursionlimit(200000)


import os
DEBUG = bool(os.environ.get('IFC_DEBUG'))


class Undecided(Exception):
    pass


class Panic(Exception):
    def __init__(self, what, sp=None):
        Exception.__init__(self, what)
        self.what = what
        self.sp = sp


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class NoChoice(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    def __init__(self, v, label):
        self.v = v
        self.label = label


class _Cont(Exception):
    def __init__(self, label):
        self.label = label


# ---------------------------------------------------------------- values
class Sym:
    """unknown value of type ty; name determines identity"""
    __slots__ = ('name', 'ty', 'op', 'args')

    def __init__(self, name, ty, op=None, args=()):
        self.name = name
        self.ty = ty
        self.op = op
        self.args = args

    def __repr__(self):
        return self.name


class Obj:
    __slots__ = ('adt', 'var', 'f', 'targs')

    def __init__(self, adt, var, f, targs=()):
        self.adt = adt
        self.var = var
        self.f = f
        self.targs = targs

    def __repr__(self):
        n = self.adt.split('::')[-1]
        if self.var and self.var != n:
            n += '::' + self.var
        return n + '{' + ', '.join('%s: %r' % kv for kv in self.f.items()) + '}'


class Tup:
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


UNIT = Tup()


class Seq:
    """Vec / slice / array"""
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return '[' + ', '.join(map(repr, self.items)) + ']'


class Map:
    """HashMap/BTreeMap/HashSet; base: Sym of the unknown initial content or None"""
    __slots__ = ('kind', 'items', 'base', 'removed')

    def __init__(self, kind, items=(), base=None, removed=()):
        self.kind = kind
        self.items = tuple(items)
        self.base = base
        self.removed = tuple(removed)

    def __repr__(self):
        return self.kind + '{' + ', '.join('%r: %r' % kv for kv in self.items) + (
            ' | ' + self.base.name if self.base else '') + '}'


class It:
    """iterator: remaining items (eager)"""
    __slots__ = ('items', 'gen')

    def __init__(self, items=(), gen=None):
        self.items = tuple(items)
        self.gen = gen

    def __repr__(self):
        return 'It' + repr(list(self.items))


class Ref:
    __slots__ = ('p', 'm')

    def __init__(self, p, m=0):
        self.p = p
        self.m = m

    def __repr__(self):
        return '&' + repr(self.p.get())


class Clo:
    __slots__ = ('node', 'env', 'sub')

    def __init__(self, node, env, sub):
        self.node = node
        self.env = env
        self.sub = sub

    def __repr__(self):
        return 'closure<%s>' % self.node['d']


class FnV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'fn<%s>' % self.f['d']


class PyFn:
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name='py'):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return 'pyfn<%s>' % self.name


class TyId:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'TypeId(%s)' % (self.t,)


class Hole:
    __slots__ = ('v', 'conv')

    def __init__(self, v, conv):
        self.v = v
        self.conv = conv

    def __repr__(self):
        return '<%s:%s>' % (self.v.name if isinstance(self.v, Sym) else self.v, self.conv)

    def __eq__(self, o):
        return isinstance(o, Hole) and self.conv == o.conv and repr(self.v) == repr(o.v)

    def __hash__(self):
        return hash(repr(self))


class Txt:
    __slots__ = ('ps',)

    def __init__(self, ps):
        self.ps = ps

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else repr(p) for p in self.ps)


def mktxt(pieces):
    out = []
    for p in pieces:
        if isinstance(p, Txt):
            for q in p.ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        elif isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Txt(tuple(out))


class Fmt:
    """a Formatter"""
    __slots__ = ('out', 'spec')

    def __init__(self):
        self.out = []
        self.spec = None

    def __repr__(self):
        return 'Formatter'


class Bits:
    """machine integer given bit by bit (least significant first); a bit is 0, 1 or (name, index)"""
    __slots__ = ('b', 't')

    def __init__(self, b, t):
        self.b = tuple(b)
        self.t = t

    def __repr__(self):
        return 'bits<%s>[%s]' % (self.t, ' '.join('%s.%d' % x if isinstance(x, tuple) else str(x) for x in reversed(self.b)))

    @staticmethod
    def width(t):
        return {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u128': 128, 'i128': 128, 'char': 32}.get(t, 64)

    @staticmethod
    def of(n, t):
        w = Bits.width(t)
        return Bits([(n >> i) & 1 for i in range(w)], t)

    def cast(self, t):
        w = Bits.width(t)
        b = self.b[:w]
        return Bits(b + (0,) * (w - len(b)), t)

    def simp(self):
        if all(x in (0, 1) for x in self.b):
            return sum(x << i for i, x in enumerate(self.b))
        return self


def _mixed(op, p, q):
    """a bit made of two unknown ones"""
    return ('(%s)' % op.join(sorted('%s.%d' % x for x in (p, q))), 0)


def bits_op(op, a, b):
    t = a.t if isinstance(a, Bits) else b.t
    if op == 'Mul' and isinstance(a, int):
        a, b = b, a
    if op in ('Mul', 'Div', 'Rem') and isinstance(b, int) and not isinstance(b, bool) and b > 0 and b & (b - 1) == 0 and isinstance(a, Bits) and t[0] == 'u':
        if op == 'Rem':
            op, b = 'BitAnd', b - 1
        else:
            op, b = ('Shl' if op == 'Mul' else 'Shr'), b.bit_length() - 1
            if op == 'Shl' and any(x != 0 for x in a.b[len(a.b) - b:]):
                return None
    if op in ('Shl', 'Shr'):
        if not isinstance(b, int) or not isinstance(a, Bits):
            return None
        w = len(a.b)
        if b >= w:
            return None
        if op == 'Shl':
            return Bits((0,) * b + a.b[:w - b], t).simp()
        return Bits(a.b[b:] + (0,) * b, t).simp()
    x = a if isinstance(a, Bits) else Bits.of(a, t)
    y = b if isinstance(b, Bits) else Bits.of(b, t)
    out = []
    for p, q in zip(x.b, y.b):
        if op == 'BitAnd':
            if p == 0 or q == 0:
                r = 0
            elif p == 1:
                r = q
            elif q == 1 or p == q:
                r = p
            else:
                r = _mixed('&', p, q)
        elif op in ('BitOr', 'Add', 'BitXor'):
            if p == 0:
                r = q
            elif q == 0:
                r = p
            elif op == 'BitOr' and (p == 1 or q == 1):
                r = 1
            elif op == 'BitOr' and p == q:
                r = p
            elif op == 'BitOr':
                r = _mixed('|', p, q)
            elif op == 'BitXor' and p == q:
                r = 0
            else:
                return None
        else:
            return None
        out.append(r)
    return Bits(out, t).simp()


class Opaque:
    """a value with identity only"""
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self):
        return '<%s %r>' % (self.what, self.data) if self.data is not None else '<%s>' % self.what


# ---------------------------------------------------------------- places
class Cell:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class FieldP:
    __slots__ = ('I', 'b', 'n')

    def __init__(self, I, b, n):
        self.I = I
        self.b = b
        self.n = n

    def get(self):
        return self.I.getfield(self.b.get(), self.n)

    def set(self, v):
        self.b.set(self.I.setfield(self.b.get(), self.n, v))


class ElemP:
    __slots__ = ('b', 'i')

    def __init__(self, b, i):
        self.b = b
        self.i = i

    def get(self):
        v = self.b.get()
        return v.items[self.i]

    def set(self, x):
        v = self.b.get()
        it = list(v.items)
        it[self.i] = x
        self.b.set(type(v)(it))


class MapP:
    """value slot i of a Map place"""
    __slots__ = ('b', 'i')

    def __init__(self, b, i):
        self.b = b
        self.i = i

    def get(self):
        return self.b.get().items[self.i][1]

    def set(self, x):
        v = self.b.get()
        it = list(v.items)
        it[self.i] = (it[self.i][0], x)
        self.b.set(Map(v.kind, it, v.base, v.removed))


def tmp(v):
    return Ref(Cell(v))


def some(v):
    return Obj('std::option::Option', 'Some', {'0': v})


NONE = Obj('std::option::Option', 'None', {})


def ok(v):
    return Obj('std::result::Result', 'Ok', {'0': v})


def err(v):
    return Obj('std::result::Result', 'Err', {'0': v})


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, up=None):
        self.d = {}
        self.up = up

    def cell(self, k):
        e = self
        while e is not None:
            c = e.d.get(k)
            if c is not None:
                return c
            e = e.up
        raise Undecided('unbound variable %s' % k)


_gen_re = re.compile(r'<[^<>]*>')


def norm(path):
    """last two path segments with generics removed: 'Option::map', 'str::replace'"""
    p = path
    if 'anyhow::Context<' in p:
        return 'Context::' + p.rsplit('::', 1)[1]
    m = re.search(r'<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>', p)
    if m:
        t = m.group(1)
        last = p.rsplit('::', 1)[1]
        if ' for ' in t:
            tr, st = t.split(' for ', 1)
            tr = _strip(tr).split('::')[-1]
            return tr + '::' + last
        if t.startswith('['):
            t = 'array' if ';' in t else 'slice'
        t = _strip(t).split('::')[-1]
        return t + '::' + last
    if p.startswith('<'):
        # <T as Trait>::m
        m = re.match(r'<.* as (.*)>::([A-Za-z_0-9]+)$', p)
        if m:
            return _strip(m.group(1)).split('::')[-1] + '::' + m.group(2)
        m = re.match(r'<(.*)>::([A-Za-z_0-9]+)$', p)
        if m:
            t = m.group(1)
            if t.startswith('(dyn std::any::Any'):
                return 'dyn Any::' + m.group(2)
            return _strip(t).split('::')[-1] + '::' + m.group(2)
    p = _strip(p)
    s = [x for x in p.split('::') if x]
    return '::'.join(s[-2:])


def _strip(p):
    while True:
        q = _gen_re.sub('', p)
        if q == p:
            return q.replace('::::', '::').strip(':') if not p.startswith('::') else q
        p = q


_norm_cache = {}


def norm_c(p):
    r = _norm_cache.get(p)
    if r is None:
        r = _norm_cache[p] = norm(p)
    return r


STR = ('prim', 'str')
STRING = ('adt', 'std::string::String', ())


PRELUDE = {'std::prelude::v1::Some': 'std::option::Option::Some', 'std::prelude::v1::Ok': 'std::result::Result::Ok',
           'std::prelude::v1::Err': 'std::result::Result::Err'}


class Interp:
    def __init__(self, facts, natives):
        self.F = facts
        self.natives = natives
        self.hooks = {}          # fn key or predicate -> callable(I, call) or NotImplemented
        self.trait_hooks = {}    # (trait key, method) -> callable(I, selfty, call)
        self.long_lists = False  # one list may also have the lengths the crate's constants single out
        self.lens = (0, 1, 2)    # lengths an unknown sequence is split into
        self.maxpaths = 40000
        self.maxsteps = 3000000
        self.dyn_types = None    # callable(sym) -> list of concrete types a dyn unknown may have
        self.fn_used = set()
        self.unmodelled = {}
        self.stack = []
        self.reset([])

    # ---- path enumeration ------------------------------------------------
    def reset(self, vec):
        self.vec = vec
        self.pos = 0
        self.trail = []
        self.refine = {}
        self.pc = {}
        self.effects = []
        self.notes = []
        self.fresh = {}
        self.steps = 0
        self.data = {}
        self.assumed = []

    def choose(self, n, label=''):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.data.get('nochoose'):
            raise NoChoice()
        if self.pos < len(self.vec):
            c = self.vec[self.pos]
        else:
            c = 0
            self.vec.append(0)
        self.trail.append((n, c, label))
        self.pos += 1
        return c

    def paths(self, fn, limit=None):
        """run fn(self) once per decision vector; yields (kind, value) with
        kind in ok / panic / undecided / infeasible"""
        limit = limit or self.maxpaths
        vec = []
        count = 0
        saved = self._save()
        try:
            while True:
                self.reset(vec)
                self.stack = []
                try:
                    r = ('ok', fn(self))
                except Panic as p:
                    r = ('panic', p)
                except Undecided as u:
                    r = ('undecided', str(u))
                except Infeasible:
                    r = ('infeasible', None)
                except RecursionError:
                    r = ('undecided', 'recursion depth')
                except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, NoChoice, _Brk,
                        _Cont, _Ret) as x:
                    if DEBUG:
                        raise
                    r = ('undecided', 'internal: %s %s' % (type(x).__name__, x))
                trail = self.trail
                if 'unmodelled call' in self.data and r[0] in ('ok', 'panic'):
                    r = ('undecided', 'unmodelled call %s' % self.data['unmodelled call'])
                if r[0] != 'infeasible':
                    yield r
                count += 1
                if count >= limit:
                    yield ('undecided', 'more than %d paths' % limit)
                    return
                # next vector
                vec = [c for _, c, _ in trail]
                ns = [n for n, _, _ in trail]
                while vec and vec[-1] + 1 >= ns[len(vec) - 1]:
                    vec.pop()
                if not vec:
                    return
                vec[-1] += 1
        finally:
            self._restore(saved)

    _STATE = ('vec', 'pos', 'trail', 'refine', 'pc', 'effects', 'notes', 'fresh', 'steps', 'data', 'assumed', 'stack')

    def _save(self):
        return {k: getattr(self, k) for k in self._STATE}

    def _restore(self, s):
        for k, v in s.items():
            setattr(self, k, v)

    def freshname(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return '%s#%d' % (base, n)

    # ---- symbolic values -------------------------------------------------
    def sym(self, name, ty, op=None, args=()):
        k = ty[0]
        if k == 'ref':
            return Ref(Cell(self.sym(name, ty[1], op, args)), ty[2])
        if k == 'tuple':
            if not ty[1]:
                return UNIT
            return Tup(self.sym('%s.%d' % (name, i), t) for i, t in enumerate(ty[1]))
        if k == 'array' and isinstance(ty[2], int) and 0 <= ty[2] <= 16:
            return Seq(self.sym('%s[%d]' % (name, i), ty[1]) for i in range(ty[2]))
        if k == 'adt':
            if ty[1] in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'):
                return self.sym(name, ty[2][0], op, args)
            if ty[1] == 'std::marker::PhantomData':
                return Obj('std::marker::PhantomData', 'PhantomData', {}, ())
            a = self.F.adts.get(ty[1])
            if a and a['kind'] == 'Struct' and not a['vs'][0][1]:
                return Obj(ty[1], a['vs'][0][0], {}, ty[2])
            if ty[1] == 'std::string::String':
                f = self.data.get('string_value')
                if f is not None and op is None:
                    key = ('strval', name)
                    if key not in self.data:
                        self.data[key] = f(self, name)
                    if self.data[key] is not None:
                        return self.data[key]
                return Sym(name, STRING, op, args)
        return Sym(name, ty, op, args)

    EXT_ENUMS = {
        'std::option::Option': {'None': [], 'Some': [('0', 0)]},
        'std::result::Result': {'Ok': [('0', 0)], 'Err': [('0', 1)]},
    }

    def fields_of(self, ty, variant=None):
        if ty[0] == 'adt':
            if ty[1] in self.EXT_ENUMS:
                return [(n, ty[2][i]) for n, i in self.EXT_ENUMS[ty[1]][variant]]
            if ty[1] in self.F.adts:
                return self.F.fields(ty, variant)
            e = EXT_STRUCTS.get(ty[1])
            if e:
                return e
        return None

    def variants_of(self, ty):
        if ty[0] == 'adt':
            if ty[1] in self.EXT_ENUMS:
                return list(self.EXT_ENUMS[ty[1]])
            if self.F.is_enum(ty):
                return self.F.variants(ty)
        return None

    def variant(self, v):
        """variant name of an enum value, splitting unknowns"""
        if isinstance(v, Obj):
            return v.var
        if isinstance(v, Sym):
            r = self.refine.get(v.name)
            if r is not None:
                return r
            vs = self.variants_of(v.ty)
            if vs is None:
                raise Undecided('variant of %s: %s' % (v.name, self.F.show(v.ty)))
            pick = self.data.get('variant_pick')
            if pick is not None:
                r = pick(self, v)
                if r is not None:
                    self.refine[v.name] = r
                    return r
            c = self.choose(len(vs), v.name)
            self.refine[v.name] = vs[c]
            return vs[c]
        raise Undecided('variant of %r' % (v,))

    def expand(self, v):
        """Sym of ADT type -> Obj with unknown fields"""
        if not isinstance(v, Sym):
            return v
        ty = v.ty
        if ty[0] != 'adt':
            raise Undecided('expand %s: %s' % (v.name, self.F.show(ty)))
        vs = self.variants_of(ty)
        if vs is not None:
            var = self.variant(v)
            fs = self.fields_of(ty, var)
            return Obj(ty[1], var, {n: self.sym('%s@%s.%s' % (v.name, var, n), t) for n, t in fs}, ty[2])
        fs = self.fields_of(ty)
        if fs is None:
            raise Undecided('expand opaque %s' % self.F.show(ty))
        var = self.F.adts[ty[1]]['vs'][0][0] if ty[1] in self.F.adts else ty[1].split('::')[-1]
        if v.op and ty[1] in EXT_STRUCTS:
            return Obj(ty[1], var, {n: self.sym('%s.%s' % (v.name, n), t, 'part', (v, n)) for n, t in fs}, ty[2])
        return Obj(ty[1], var, {n: self.sym('%s.%s' % (v.name, n), t) for n, t in fs}, ty[2])

    def getfield(self, v, n):
        while isinstance(v, Ref):
            v = v.p.get()
        if isinstance(v, Obj):
            if n in v.f:
                return v.f[n]
            raise Undecided('field %s of %r' % (n, v))
        if isinstance(v, Tup):
            return v.items[int(n)]
        if isinstance(v, Sym):
            return self.expand(v).f[n] if n in self._fnames(v) else self._nofield(v, n)
        if isinstance(v, Seq) and n.isdigit():
            return v.items[int(n)]
        raise Undecided('field %s of %r' % (n, v))

    def _fnames(self, v):
        ty = v.ty
        if self.variants_of(ty) is not None:
            return {x for x, _ in self.fields_of(ty, self.variant(v))}
        fs = self.fields_of(ty)
        if fs is None:
            return ()
        return {x for x, _ in fs}

    def _nofield(self, v, n):
        raise Undecided('field %s of unknown %s: %s' % (n, v.name, self.F.show(v.ty)))

    def setfield(self, v, n, x):
        if isinstance(v, Ref):
            v.p.set(self.setfield(v.p.get(), n, x))
            return v
        if isinstance(v, Sym):
            v = self.expand(v)
        if isinstance(v, Obj):
            f = dict(v.f)
            f[n] = x
            return Obj(v.adt, v.var, f, v.targs)
        if isinstance(v, Tup):
            it = list(v.items)
            it[int(n)] = x
            return Tup(it)
        raise Undecided('set field %s of %r' % (n, v))

    def deref(self, v):
        while isinstance(v, Ref):
            v = v.p.get()
        return v

    def type_of(self, v):
        v = self.deref(v)
        if isinstance(v, Sym):
            return self.dyn(v) if v.ty[0] == 'dyn' and self.refine.get(v.name) else v.ty
        if isinstance(v, Obj):
            return ('adt', v.adt, tuple(v.targs))
        if isinstance(v, (str, Txt)):
            return STRING
        if isinstance(v, bool):
            return ('prim', 'bool')
        if isinstance(v, float):
            return ('prim', 'f64')
        return None

    def dyn(self, v):
        """concrete type of an unknown trait object"""
        r = self.refine.get(v.name)
        if r is None:
            if self.dyn_types is None:
                raise Undecided('concrete type of %s' % v.name)
            ts = self.data.get(('dom', v.name)) or self.dyn_types(v)
            r = ts[self.choose(len(ts), v.name + ':dyn')]
            self.refine[v.name] = r
        return r

    def is_type(self, v, t):
        """is the concrete type of the unknown trait object v equal to t? (splits)"""
        r = self.refine.get(v.name)
        if r is not None:
            return r == t
        if self.dyn_types is None:
            raise Undecided('concrete type of %s' % v.name)
        dom = self.data.get(('dom', v.name))
        if dom is None:
            dom = list(self.dyn_types(v))
        if t not in dom:
            return False
        if len(dom) == 1 or self.choose(2, '%s is %s' % (v.name, self.F.show(t))) == 0:
            self.refine[v.name] = t
            return True
        self.data[('dom', v.name)] = [x for x in dom if x != t]
        return False

    def domain(self, v):
        r = self.refine.get(v.name)
        if r is not None:
            return [r]
        return self.data.get(('dom', v.name)) or list(self.dyn_types(v))

    def decide(self, name):
        r = self.pc.get(name)
        if r is None:
            r = self.choose(2, name) == 0
            self.pc[name] = r
        return r

    def isempty(self, v):
        """is this unknown text empty? (splits)"""
        r = self.decide('is_empty(%s)' % self.show(v))
        if r:
            if isinstance(v, Sym):
                self.data[('const', v.name)] = ''
            for p in (v.ps if isinstance(v, Txt) else ()):
                if isinstance(p, Hole) and isinstance(p.v, Sym) and p.v.ty in (STRING, STR):
                    self.data[('const', p.v.name)] = ''
        return r

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Sym):
            return self.decide(v.name)
        raise Undecided('truth of %r' % (v,))

    def app(self, op, args, ty):
        return self.sym('%s(%s)' % (op, ','.join(self.show(a) for a in args)), ty, op, tuple(args))

    def app_op(self, nm, args, ty, op):
        return self.sym('%s(%s)' % (nm, ','.join(self.show(a) for a in args)), ty, op, tuple(args))

    def show(self, v, d=0):
        v = self.deref(v)
        if d > 12:
            return '..'
        if isinstance(v, Sym):
            return v.name
        if isinstance(v, Obj):
            n = v.adt.split('::')[-1]
            if v.var and v.var != n:
                n += '::' + v.var
            if not v.f:
                return n
            return n + '{' + ','.join('%s:%s' % (k, self.show(x, d + 1)) for k, x in sorted(v.f.items())) + '}'
        if isinstance(v, (Tup, Seq)):
            return '[' + ','.join(self.show(x, d + 1) for x in v.items) + ']'
        return repr(v)

    def nrm(self, v):
        """canonical comparable form (refined unknowns unfolded)"""
        v = self.deref(v)
        if isinstance(v, Sym):
            if self.refine.get(v.name) is not None and not isinstance(self.refine[v.name], tuple) and \
                    self.variants_of(v.ty) is not None:
                return self.nrm(self.expand(v))
            if isinstance(self.refine.get(v.name), Seq):
                return self.nrm(self.refine[v.name])
            if self.data.get(('const', v.name)) == '':
                return ('c', '')
            return ('sym', v.name)
        if isinstance(v, Obj):
            return ('obj', v.adt, v.var, tuple(sorted((k, self.nrm(x)) for k, x in v.f.items())))
        if isinstance(v, Tup):
            return ('tup', tuple(self.nrm(x) for x in v.items))
        if isinstance(v, (Seq, It)):
            return ('seq', tuple(self.nrm(x) for x in v.items))
        if isinstance(v, Map):
            return ('map', tuple(sorted((self.nrm(k), self.nrm(x)) for k, x in v.items)), v.base and v.base.name)
        if isinstance(v, Txt):
            ps = [p for p in v.ps if isinstance(p, str) or not isinstance(p.v, Sym) or
                  self.data.get(('const', p.v.name)) != '']
            if len(ps) != len(v.ps):
                return self.nrm(mktxt(ps))
            if len(v.ps) == 1 and isinstance(v.ps[0], Hole) and v.ps[0].conv == 'display' and isinstance(v.ps[0].v, Sym):
                return ('sym', v.ps[0].v.name)
            return ('txt', tuple(p if isinstance(p, str) else repr(p) for p in v.ps))
        if isinstance(v, TyId):
            return ('tyid', v.t.name if isinstance(v.t, Sym) else v.t)
        if isinstance(v, Bits):
            return ('bits', v.b)
        if isinstance(v, (bool, int, float, str)) or v is None:
            return ('c', v)
        return ('o', id(v))

    def same(self, a, b):
        """definitely the same abstract value?"""
        a = self.deref(a)
        b = self.deref(b)
        if isinstance(a, Sym) and isinstance(b, Obj):
            a, b = b, a
        if isinstance(a, Obj) and isinstance(b, Sym):
            if b.ty[0] != 'adt' or b.ty[1] != a.adt:
                return False
            if self.variants_of(b.ty) is not None:
                if self.refine.get(b.name) != a.var:
                    return False
            if self.fields_of(b.ty, a.var if self.variants_of(b.ty) is not None else None) is None:
                return False
            b = self.expand(b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.adt == b.adt and a.var == b.var and set(a.f) == set(b.f) and all(
                self.same(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.name == b.name:
                return True
            if self.pc.get('eq(%s,%s)' % tuple(sorted((a.name, b.name)))) is True:
                return True
            return self.order(a, b) == 0
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(o, Seq) and isinstance(self.refine.get(s.name), Seq):
                return self.same(self.refine[s.name], o)
            if isinstance(o, Map) and isinstance(self.refine.get(s.name), Map):
                return self.same(self.refine[s.name], o)
            if isinstance(o, Txt):
                return self.nrm(o) == ('sym', s.name)
            if isinstance(o, (bool, int, float, str)):
                return self.known_const(s) == ('c', o)
            return False
        if isinstance(a, (Tup, Seq, It)) and isinstance(b, (Tup, Seq, It)):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Map) and isinstance(b, Map):
            return len(a.items) == len(b.items) and all(
                self.same(x[0], y[0]) and self.same(x[1], y[1]) for x, y in zip(a.items, b.items))
        return self.nrm(a) == self.nrm(b)

    def known_const(self, s):
        r = self.data.get(('const', s.name))
        return ('c', r) if r is not None or ('const', s.name) in self.data else None

    def equal(self, a, b):
        """== with splitting on unknowns; returns bool"""
        a = self.deref(a)
        b = self.deref(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
                return True
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if s.ty[0] == 'adt' and (isinstance(o, Obj) or (self.variants_of(s.ty) is not None) or (
                    s.ty[1] in self.F.adts)) and self.fields_of(s.ty, (self.variants_of(s.ty) or [None])[0]) is not None:
                if isinstance(o, Sym) and self.variants_of(s.ty) is None and s.ty[1] in self.F.adts:
                    return self._eqsym(a, b)
                x = self.expand(s)
                y = self.expand(o)
                if isinstance(x, Obj) and isinstance(y, Obj):
                    if x.var != y.var or x.adt != y.adt:
                        return False
                    return all(self.equal(x.f[k], y.f[k]) for k in x.f)
            if isinstance(o, (bool, int, float, str)) and not isinstance(o, Sym):
                kc = ('const', s.name)
                if kc in self.data:
                    return self.data[kc] == o
                r = self.order(s, o)
                if r is not None:
                    return r == 0
                r = self.decide('eq(%s,%r)' % (s.name, o))
                self.learn(s, o, 0 if r else 3)
                if r:
                    self.data[kc] = o
                return r
            return self._eqsym(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.adt != b.adt:
                raise Undecided('== of %s and %s' % (a.adt, b.adt))
            if a.var != b.var:
                return False
            return all(self.equal(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, (Tup, Seq)) and isinstance(b, (Tup, Seq)):
            return len(a.items) == len(b.items) and all(self.equal(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, TyId) and isinstance(b, TyId):
            if isinstance(a.t, Sym) and isinstance(b.t, Sym):
                if a.t.name == b.t.name:
                    return True
                return self.dyn(a.t) == self.dyn(b.t)
            if isinstance(a.t, Sym):
                return self.is_type(a.t, b.t)
            if isinstance(b.t, Sym):
                return self.is_type(b.t, a.t)
            return a.t == b.t
        if isinstance(a, Txt) or isinstance(b, Txt):
            if self.nrm(a) == self.nrm(b):
                return True
            return self.decide('eq(%s)' % ','.join(sorted((repr(self.nrm(a)), repr(self.nrm(b))))))
        if isinstance(a, (bool, int, float, str)) and isinstance(b, (bool, int, float, str)):
            return a == b
        raise Undecided('== of %r and %r' % (a, b))

    # ---- numbers in known order (data['order']: names of unknowns, strictly increasing, each >= its position)
    def linear(self, v):
        v = self.deref(v)
        while isinstance(v, Obj) and len(v.f) == 1:
            v = self.deref(next(iter(v.f.values())))
        c = 0
        while isinstance(v, Sym) and v.op in ('add', 'sub') and len(v.args) == 2:
            x, y = (self.deref(z) for z in v.args)
            if isinstance(y, int):
                c, v = (c + y if v.op == 'add' else c - y), x
            elif isinstance(x, int) and v.op == 'add':
                c, v = c + x, y
            else:
                return None
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return None, c + v
        if isinstance(v, Sym) and v.name in self.data.get('order', ()):
            k = self.data.get(('const', v.name))
            return (None, c + k) if isinstance(k, int) else (v.name, c)
        return None

    def term(self, v):
        """(unknown integer or None, constant) of a sum, None for anything else"""
        r = self.linear(v)
        if r is not None:
            return r
        v = self.deref(v)
        while isinstance(v, Obj) and len(v.f) == 1:
            v = self.deref(next(iter(v.f.values())))
        c = 0
        while isinstance(v, Sym) and v.op in ('add', 'sub') and len(v.args) == 2:
            x, y = (self.deref(z) for z in v.args)
            if isinstance(y, int):
                c, v = (c + y if v.op == 'add' else c - y), x
            elif isinstance(x, int) and v.op == 'add':
                c, v = c + x, y
            else:
                return None
        if isinstance(v, int) and not isinstance(v, bool):
            return None, c + v
        if not isinstance(v, Sym) or v.ty[0] != 'prim' or v.ty[1] in ('char', 'bool', 'f64', 'f32') or _range(v.ty[1])[0] is None:
            return None
        k = self.data.get(('const', v.name))
        if isinstance(k, int):
            return None, c + k
        if v.ty[1].startswith('u'):
            self.data.setdefault('unsigned', set()).add(v.name)
        return v.name, c

    def bound(self, p, q):
        """least c with p - q <= c known on this path (p, q: unknowns, None is zero)"""
        if p == q:
            return 0
        dc = self.data.get('dc', ())
        od = self.data.get('order') or ()
        un = self.data.get('unsigned', ())
        nodes = {p, q, None} | {x for x, _, _ in dc} | {y for _, y, _ in dc}
        edges = list(dc)
        chain = sorted((od.index(x), x) for x in nodes if x in od)
        for (i, x), (j, y) in zip(chain, chain[1:]):
            edges.append((x, y, i - j))
        if chain:
            edges.append((None, chain[0][1], -chain[0][0]))
        edges += [(None, x, 0) for x in nodes if x in un]
        # x - y <= c: shortest way from p to q
        dist = {p: 0}
        for _ in range(len(nodes)):
            ch = False
            for x, y, c in edges:
                if x in dist and dist[x] + c < dist.get(y, float('inf')):
                    dist[y] = dist[x] + c
                    ch = True
            if not ch:
                break
        return dist.get(q, float('inf'))

    def learn(self, a, b, r):
        """r: a < b (-1), a <= b (-2), a == b (0), a >= b (2), a > b (1), a != b (3)"""
        x, y = self.term(a), self.term(b)
        if x is None or y is None:
            return
        (p, c), (q, d) = x, y
        dc = self.data.setdefault('dc', [])
        if r in (-1, -2, 0):
            dc.append((p, q, d - c - (r == -1)))
        if r in (1, 2, 0):
            dc.append((q, p, c - d - (r == 1)))
        if r == 3:
            self.data.setdefault('ne', []).append((p, q, d - c))

    def limits(self, a, b):
        """(greatest, least) known value of a - b, None when not integers"""
        x, y = self.term(a), self.term(b)
        if x is None or y is None:
            return None
        (p, c), (q, d) = x, y
        hi = self.bound(p, q) + c - d
        lo = -self.bound(q, p) + c - d
        for u, v, k in self.data.get('ne', ()):
            for k in ((k,) if (u, v) == (p, q) else (-k,) if (u, v) == (q, p) else ()):
                if hi == k + c - d:
                    hi -= 1
                if lo == k + c - d:
                    lo += 1
        return hi, lo

    def order(self, a, b):
        """-1 / 0 / 1 / None"""
        od = self.data.get('order')
        if od:
            x, y = self.linear(a), self.linear(b)
            if x is not None and y is not None:
                (p, c), (q, d) = x, y
                if p == q:
                    return (c > d) - (c < d)
                if p is None and c < od.index(q) + d:
                    return -1
                if q is None and d < od.index(p) + c:
                    return 1
                if p is not None and q is not None:
                    i, j = od.index(p), od.index(q)
                    if i < j and c < d + (j - i):
                        return -1
                    if i > j and d < c + (i - j):
                        return 1
        a, b = self.bare(a), self.bare(b)
        if isinstance(a, int) and isinstance(b, int):
            return (a > b) - (a < b)
        if self.data.get('dc') or self.data.get('ne'):
            r = self.limits(a, b)
            if r is not None:
                hi, lo = r
                return -1 if hi < 0 else 1 if lo > 0 else 0 if hi == lo == 0 else None
        return None

    def bare(self, v):
        v = self.deref(v)
        while isinstance(v, Obj) and len(v.f) == 1 and v.adt.split('::')[-1] == v.var:
            v = self.deref(next(iter(v.f.values())))
        return v

    def weak(self, a, b):
        """-1: a <= b, 1: a >= b, None: unknown"""
        r = self.limits(a, b)
        if r is None:
            return None
        hi, lo = r
        return -1 if hi <= 0 else 1 if lo >= 0 else None

    def less(self, a, b, eq=False):
        """a < b (or <=) with splitting, for numbers in known order"""
        r = self.order(a, b)
        if r is None:
            w = self.weak(a, b)
            return True if w == -1 and eq else False if w == 1 and not eq else None
        return r < 0 or (eq and r == 0)

    def cmp_split(self, a, b, eq):
        """a < b / a <= b, split when unknown"""
        r = self.less(a, b, eq)
        if r is None:
            r = self.decide('%s(%s,%s)' % ('le' if eq else 'lt', self.show(self.bare(a)), self.show(self.bare(b))))
            self.learn(a, b, (-2 if eq else -1) if r else (1 if eq else 2))
        return r

    def _eqsym(self, a, b):
        r = self.order(a, b)
        if r is not None:
            return r == 0
        x, y = sorted((self.show(a), self.show(b)))
        r = self.decide('eq(%s,%s)' % (x, y))
        self.learn(a, b, 0 if r else 3)
        return r

    # ---- sequences -------------------------------------------------------
    def items(self, v):
        """the elements of a collection value (splitting unknown ones by length)"""
        v = self.deref(v)
        if isinstance(v, (Seq, It)):
            if isinstance(v, It) and v.gen is not None:
                raise Undecided('unbounded iterator')
            return list(v.items)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Map):
            base = []
            if v.base is not None:
                base = self._base_entries(v)
            ents = base + list(v.items)
            if v.kind.startswith('BTree') and self.data.get('order'):
                ents = self.sorted_entries(ents)
            if v.kind.endswith('Set'):
                return [k for k, _ in ents]
            return [Tup((k, x)) for k, x in ents]
        if isinstance(v, Sym):
            m = self.materialize(v)
            return self.items(m)
        if isinstance(v, Obj) and v.adt == 'std::option::Option':
            return [v.f['0']] if v.var == 'Some' else []
        if isinstance(v, Obj) and v.adt == 'Range':
            lo, hi = v.f['lo'], v.f['hi']
            if isinstance(lo, int) and isinstance(hi, int):
                return list(range(lo, hi))
        raise Undecided('iterate %r' % (v,))

    def sorted_entries(self, ents):
        out = []
        for e in ents:
            i = len(out)
            while i and self.order(e[0], out[i - 1][0]) == -1:
                i -= 1
            out.insert(i, e)
        return out

    def _base_entries(self, v):
        b = v.base
        m = self.materialize(b)
        out = []
        for k, x in m.items:
            if any(self.same(k, r) for r in v.removed):
                continue
            out.append((k, x))
        return out

    def materialize(self, v):
        """unknown collection -> concrete length with unknown elements"""
        r = self.refine.get(v.name)
        if isinstance(r, (Seq, Map)):
            return r
        ty = v.ty
        if ty[0] == 'adt':
            n = ty[1].split('::')[-1]
            if n in ('Vec', 'VecDeque'):
                ln = self.length(v.name)
                r = Seq(self.sym('%s[%d]' % (v.name, i), ty[2][0]) for i in range(ln))
            elif n in ('HashMap', 'BTreeMap'):
                ln = self.length(v.name)
                r = Map(n, [(self.sym('%s.key%d' % (v.name, i), ty[2][0]), self.sym('%s.val%d' % (v.name, i), ty[2][1]))
                            for i in range(ln)])
            elif n in ('HashSet', 'BTreeSet'):
                ln = self.length(v.name)
                r = Map(n, [(self.sym('%s.key%d' % (v.name, i), ty[2][0]), UNIT) for i in range(ln)])
            elif n == 'Option':
                return self.expand(v)
        elif ty[0] in ('slice', 'array'):
            ln = self.length(v.name)
            r = Seq(self.sym('%s[%d]' % (v.name, i), ty[1]) for i in range(ln))
        if r is None:
            raise Undecided('iterate unknown %s: %s' % (v.name, self.F.show(ty)))
        self.refine[v.name] = r
        return r

    def length(self, name):
        f = self.data.get('lens_of')
        lens = f(name) if f is not None else self.lens
        if self.long_lists and f is None and 2 in lens and 'long list' not in self.data:
            more = [x for x in self.F.long(8) if x not in lens]
            k = self.choose(len(lens) + len(more), name + ':len')
            if k >= len(lens):
                self.data['long list'] = name
                return more[k - len(lens)]
            return lens[k]
        return lens[self.choose(len(lens), name + ':len')]

    # ---- calls -----------------------------------------------------------
    def callv(self, f, args, ret=None):
        """call a function value"""
        f = self.deref(f)
        if isinstance(f, PyFn):
            return f.fn(*args)
        if isinstance(f, Clo):
            env = Env(f.env)
            b = f.node['b']
            ps = b['params']
            # closures have an implicit self parameter without pattern
            ps = [p for p in ps if p['p'] is not None] if len(ps) != len(args) else ps
            if len(ps) != len(args):
                if len(args) == 1 and isinstance(args[0], Tup) and len(ps) == len(args[0].items):
                    args = list(args[0].items)
                else:
                    raise Undecided('closure arity')
            for p, a in zip(ps, args):
                if p['p'] is not None:
                    self.bind(p['p'], a, env)
            self.stack.append(f.node['d'])
            oldsub = self.sub
            self.sub = f.sub
            try:
                return self.ev(b['e'], env)
            except _Ret as r:
                return r.v
            finally:
                self.sub = oldsub
                self.stack.pop()
        if isinstance(f, FnV):
            return self.call(f.f, list(args), ret, None)
        raise Undecided('call of %r' % (f,))

    sub = {}

    def subst_ty(self, t):
        return self.F.subst(t, self.sub)

    def fnref(self, f):
        """fnref (with type indices) -> dict with substituted types"""
        c = f.get('_c')
        if c is None:
            c = f['_c'] = tuple(self.F.tys[i] for i in f['a'])
        a = [self.F.subst(t, self.sub) for t in c] if self.sub else list(c)
        return {'d': f['d'], 'a': a, 'n': f.get('n'), 'tr': f.get('tr'), 'impl': f.get('impl')}

    def call(self, f, args, ret, sp):
        d = f['d']
        if f.get('tr'):
            return self.call_trait(f, args, ret, sp)
        return self.call_path(d, f, f['a'], args, ret, sp)

    def call_path(self, d, f, targs, args, ret, sp, selfty=None):
        h = self.hooks.get(d)
        if h is not None:
            r = h(self, Call(f, targs, args, ret, sp, selfty))
            if r is not NotImplemented:
                return r
        fn = self.F.fns.get(d)
        if fn is not None and fn['b'] is not None:
            sub = dict(zip(fn['gen'], targs))
            return self.run_fn(fn, sub, args)
        if d.endswith('{constructor#0}'):
            p = d[:-len('::{constructor#0}')]
            if p in self.F.adts:
                var = self.F.adts[p]['vs'][0][0]
                return Obj(p, var, {str(i): a for i, a in enumerate(args)}, tuple(targs))
            adt, var = p.rsplit('::', 1)
            return Obj(adt, var, {str(i): a for i, a in enumerate(args)}, tuple(targs))
        if d in PRELUDE:
            d = PRELUDE[d]
        if d in ('std::option::Option::Some', 'std::result::Result::Ok', 'std::result::Result::Err'):
            adt, var = d.rsplit('::', 1)
            return Obj(adt, var, {'0': args[0]})
        return self.native(d, f, targs, args, ret, sp)

    def native(self, d, f, targs, args, ret, sp):
        n = norm_c(d)
        h = self.natives.get(n)
        c = Call(f, targs, args, ret, sp, None)
        if h is not None:
            if args and n.startswith(('Iterator::', 'Itertools::')):
                v = self.deref(args[0])
                if isinstance(v, Sym) and v.op == 'iterapp' and ret is not None:
                    return self.app_op(n, args, ret, 'iterapp')
            r = h(self, c)
            if r is not NotImplemented:
                return r
        return self.unknown_call(d, c)

    def unknown_call(self, d, c):
        if not norm_c(d).startswith(('f64::', 'f32::', 'DVec', 'DQuat', 'Vec2::', 'Vec3::')):
            self.data['unmodelled call'] = norm_c(d)
        self.unmodelled[norm_c(d)] = self.unmodelled.get(norm_c(d), 0) + 1
        ret = c.ret
        if ret is None:
            raise Undecided('unmodelled call %s' % d)
        if ret[0] == 'prim' and ret[1] == '!':
            raise Panic('call to %s' % d, c.sp)
        for a in c.args:
            if isinstance(a, Ref) and a.m:
                raise Undecided('unmodelled call %s with &mut argument' % d)
        return self.app(norm_c(d), c.args, ret)

    def run_fn(self, fn, sub, args):
        self.fn_used.add(fn['d'])
        if len(self.stack) > 400:
            raise Undecided('call depth at %s' % fn['d'])
        env = Env()
        b = fn['b']
        if len(b['params']) != len(args):
            raise Undecided('arity of %s' % fn['d'])
        oldsub = self.sub
        self.sub = sub
        self.stack.append(fn['d'])
        try:
            for p, a in zip(b['params'], args):
                if p['p'] is not None:
                    self.bind(p['p'], a, env)
            return self.ev(b['e'], env)
        except _Ret as r:
            return r.v
        finally:
            self.sub = oldsub
            self.stack.pop()

    def call_trait(self, f, args, ret, sp):
        tr = f['tr']
        n = f['n']
        a = list(f['a'])
        selfty = a[0] if a else None
        th = self.trait_hooks.get((tr, n))
        if th is not None:
            r = th(self, selfty, Call(f, a, args, ret, sp, selfty))
            if r is not NotImplemented:
                return r
        islocal = tr in self.F.traits
        t = selfty
        if t is not None:
            if t[0] in ('param', 'alias', 'dyn', 'other') or (t[0] == 'prim' and t[1] == '?rec'):
                rt = None
                if args:
                    v = self.deref(args[0])
                    if isinstance(v, Sym) and v.ty[0] == 'dyn':
                        if islocal or tr in ('std::fmt::Display', 'std::fmt::Debug'):
                            rt = self.dyn(v)
                            args = [Ref(Cell(self.sym(v.name + '!', rt)), 0) if isinstance(args[0], Ref) and not args[0].m
                                    else args[0]] + list(args[1:])
                    else:
                        rt = self.type_of(v)
                if rt is not None:
                    a[0] = t = rt
            # auto-ref'd impls on references (e.g. &T: Display)
            base = t
            found = None
            if tr not in BUILTIN_TRAITS:
                found = self.F.impl_for(tr, [base] + self._traitargs(tr, a))
                while found is None and base[0] == 'ref':
                    base = base[1]
                    if tr in ('std::fmt::Display', 'std::fmt::Debug') or islocal:
                        found = self.F.impl_for(tr, [base] + self._traitargs(tr, a))
                        if found and args and isinstance(args[0], Ref) and isinstance(args[0].p.get(), Ref):
                            args = [args[0].p.get()] + list(args[1:])
            if found is not None:
                im, b = found
                it = im['imap'].get(n)
                if it is not None and not (im['derived'] and tr in DERIVED_NATIVE):
                    key = it[0]
                    fn = self.F.fns.get(key)
                    nta = len(im['ta'])
                    sub = dict(b)
                    if fn is not None:
                        own = fn['gen'][len(im['gen']):]
                        sub.update(zip(own, a[nta:]))
                        h = self.hooks.get(key)
                        if h is not None:
                            r = h(self, Call(f, [sub.get(g) for g in fn['gen']], args, ret, sp, t))
                            if r is not NotImplemented:
                                return r
                        return self.run_fn(fn, sub, args)
                elif it is None and islocal:
                    return self._default(tr, n, f, a, t, args, ret, sp)
                elif it is None:
                    # provided method of a foreign trait on a local type: native on that trait
                    pass
            elif islocal:
                # default method without (visible) impl: only for generic self
                key = f['d']
                fn = self.F.fns.get(key)
                if fn is not None and fn['b'] is not None and t[0] not in ('param', 'alias'):
                    return self._default(tr, n, f, a, t, args, ret, sp)
                if ret is not None and self.data.get('opaque_traits'):
                    return self.app(n, args, ret)
                raise Undecided('unresolved %s::%s for %s' % (tr, n, self.F.show(t)))
        return self.native(f['d'], f, a, args, ret, sp)

    def _traitargs(self, tr, a):
        lt = self.F.traits.get(tr)
        if lt is not None:
            return a[1:len(lt['gen'])]
        n = {'std::convert::From': 1, 'std::convert::Into': 1, 'std::convert::AsRef': 1, 'std::cmp::PartialEq': 1,
             'std::cmp::PartialOrd': 1, 'std::convert::TryFrom': 1, 'std::ops::Mul': 1, 'std::ops::Add': 1,
             'std::ops::Sub': 1, 'std::ops::AddAssign': 1, 'std::ops::SubAssign': 1, 'std::ops::MulAssign': 1,
             'std::iter::FromIterator': 1, 'std::iter::Extend': 1, 'std::ops::Index': 1}.get(tr, 0)
        return a[1:1 + n]

    def _default(self, tr, n, f, a, t, args, ret, sp):
        key = f['d']
        fn = self.F.fns.get(key)
        if fn is None or fn['b'] is None:
            raise Undecided('no body for %s' % key)
        h = self.hooks.get(key)
        a = [t] + list(a[1:])
        if h is not None:
            r = h(self, Call(f, a, args, ret, sp, t))
            if r is not NotImplemented:
                return r
        return self.run_fn(fn, dict(zip(fn['gen'], a)), args)

    # ---- patterns --------------------------------------------------------
    def bind(self, p, v, env):
        if not self.match(p, v, env):
            raise Undecided('irrefutable pattern failed')

    def match(self, p, v, env):
        k = p['k']
        if k == 'Wild':
            return True
        if k == 'Bind':
            if p['s'] is not None and not self.match(p['s'], v, env):
                return False
            r = p.get('r')
            if isinstance(v, _PlaceV):
                if r == 2:
                    env.d[p['v']] = Cell(Ref(v.p, 1))
                elif r:
                    env.d[p['v']] = Cell(Ref(Cell(v.p.get())))
                else:
                    env.d[p['v']] = Cell(v.p.get())
            elif r:
                env.d[p['v']] = Cell(Ref(Cell(v)))
            else:
                env.d[p['v']] = Cell(v)
            return True
        if k == 'DerefP':
            vv = v.p.get() if isinstance(v, _PlaceV) else v
            if isinstance(vv, Ref):
                if vv.m:
                    return self.match(p['s'], _PlaceV(vv.p), env)
                return self.match(p['s'], vv.p.get(), env)
            return self.match(p['s'], v, env)
        if k == 'Variant':
            vv = v.p.get() if isinstance(v, _PlaceV) else v
            vv = self.deref(vv)
            if p['a'] == 'std::ops::ControlFlow':
                if vv.var != p['v']:
                    return False
            else:
                if isinstance(vv, (Seq, Map)):
                    raise Undecided('variant pattern on %r' % (vv,))
                if self.variant(vv) != p['v']:
                    return False
            for n, q in p['f']:
                sub = _PlaceV(FieldP(self, v.p, n)) if isinstance(v, _PlaceV) else self.getfield(vv, n)
                if not self.match(q, sub, env):
                    return False
            return True
        if k == 'Leaf':
            for n, q in p['f']:
                if isinstance(v, _PlaceV):
                    sub = _PlaceV(FieldP(self, v.p, n))
                else:
                    if q['k'] == 'Wild':
                        continue
                    sub = self.getfield(v, n)
                if not self.match(q, sub, env):
                    return False
            return True
        if k == 'Const':
            vv = v.p.get() if isinstance(v, _PlaceV) else v
            return self.equal(vv, self.patconst(p))
        if k == 'Or':
            for q in p['a']:
                if self.match(q, v, env):
                    return True
            return False
        if k == 'SliceP':
            vv = v.p.get() if isinstance(v, _PlaceV) else v
            vv = self.deref(vv)
            if isinstance(vv, Sym):
                vv = self.materialize(vv)
            it = vv.items
            np, ns = len(p['pre']), len(p['suf'])
            if p['mid'] is None:
                if len(it) != np + ns:
                    return False
            elif len(it) < np + ns:
                return False
            for q, x in zip(p['pre'], it):
                if not self.match(q, x, env):
                    return False
            for q, x in zip(p['suf'], it[len(it) - ns:]):
                if not self.match(q, x, env):
                    return False
            if p['mid'] is not None:
                if not self.match(p['mid'], Seq(it[np:len(it) - ns]), env):
                    return False
            return True
        if k == 'Range':
            vv = self.deref(v.p.get() if isinstance(v, _PlaceV) else v)
            m = re.match(r"^(.*?)\.\.(=?)(.*)$", p['c'])
            if not m:
                raise Undecided('range pattern ' + p['c'])
            lo, hi = _rconst(m.group(1)), _rconst(m.group(3))
            if isinstance(vv, Sym):
                return self.decide('inrange(%s,%s)' % (vv.name, p['c']))
            if lo is not None and vv < lo:
                return False
            if hi is not None and (vv > hi or (vv == hi and not m.group(2))):
                return False
            return True
        if k == 'GuardP':
            return self.match(p['s'], v, env) and self.truth(self.ev(p['c'], env))
        if k == 'NeverP':
            return False
        raise Undecided('pattern %s' % k)

    def patconst(self, p):
        c = p['c']
        r = p.get('_v')
        if r is None:
            m = re.match(r'^Branch\(\[(.*)\]\): (?:&)?str$', c)
            if m:
                r = bytes(int(x.split('_')[0]) for x in m.group(1).split(',') if x.strip()).decode('utf8')
            else:
                r = _rconst(c)
                if r is None:
                    raise Undecided('pattern constant ' + c)
            p['_v'] = r
        return r

    # ---- expressions -----------------------------------------------------
    def place(self, e, env):
        k = e['k']
        if k == 'Var':
            return env.cell(e['v'])
        if k == 'Field':
            return FieldP(self, self.place(e['e'], env), e['n'])
        if k == 'Deref':
            if e['e']['k'] in ('Var', 'Field', 'Deref', 'Index'):
                p = self.place(e['e'], env)
                v = p.get()
                return v.p if isinstance(v, Ref) else p
            v = self.ev(e['e'], env)
            if isinstance(v, Ref):
                return v.p
            return Cell(v)
        if k == 'Index':
            b = self.place(e['e'], env)
            i = self.deref(self.ev(e['i'], env))
            v = b.get()
            while isinstance(v, Ref):
                b = v.p
                v = b.get()
            if isinstance(v, Sym):
                v = self.materialize(v)
                b.set(v)
            if isinstance(i, int) and isinstance(v, Seq):
                if i >= len(v.items):
                    raise Panic('index %d out of bounds (len %d)' % (i, len(v.items)), e.get('sp'))
                return ElemP(b, i)
            raise Undecided('index place')
        if k == 'Block' and not e['s'] and e['e'] is not None:
            return self.place(e['e'], env)
        return Cell(self.ev(e, env))

    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('step limit')
        return _EV[e['k']](self, e, env)

    def ev_Var(self, e, env):
        return env.cell(e['v']).get()

    def ev_Lit(self, e, env):
        lk = e['lk']
        v = e['v']
        if lk == 'str':
            return Ref(Cell(v))
        if lk == 'int':
            t = self.F.tys[e['t']]
            if t[1] in ('f64', 'f32'):
                return float(v)
            return v
        if lk == 'float':
            return float(v.replace('_', ''))
        if lk == 'bytes':
            return Ref(Cell(Seq(v)))
        if lk in ('char', 'bool'):
            return v
        if lk == 'scalar':
            m = re.search(r'0x([0-9a-f]+)', str(v))
            if m:
                return int(m.group(1), 16)
        raise Undecided('literal %s' % lk)

    def ev_Block(self, e, env):
        try:
            return self._block(e, env)
        except _Brk as b:
            if 'sc' in e and b.label == e['sc']:
                return b.v
            raise

    def _block(self, e, env):
        for s in e['s']:
            if s['k'] == 'LetStmt':
                if s['i'] is None:
                    self._declare(s['p'], env)
                    continue
                if s['p']['k'] != 'Bind' and s['i']['k'] in ('Var', 'Field', 'Deref'):
                    v = self.ev(s['i'], env)
                else:
                    v = self.ev(s['i'], env)
                if not self.match(s['p'], v, env):
                    if s['e'] is None:
                        raise Undecided('let pattern')
                    self.ev(s['e'], env)
                    raise Undecided('let-else fallthrough')
            else:
                self.ev(s, env)
        if e['e'] is not None:
            return self.ev(e['e'], env)
        return UNIT

    def _declare(self, p, env):
        if p['k'] == 'Bind':
            env.d[p['v']] = Cell(None)

    def ev_If(self, e, env):
        if self.cond(e['c'], env):
            return self.ev(e['a'], env)
        if e['b'] is not None:
            return self.ev(e['b'], env)
        return UNIT

    def cond(self, c, env):
        k = c['k']
        if k == 'Let':
            return self.ev_Let(c, env)
        if k == 'Logical':
            if c['op'] == 'And':
                return self.cond(c['l'], env) and self.cond(c['r'], env)
            return self.cond(c['l'], env) or self.cond(c['r'], env)
        return self.truth(self.deref(self.ev(c, env)))

    def ev_Let(self, e, env):
        v = self.scrut(e['e'], env)
        return self.match(e['p'], v, env)

    def scrut(self, e, env):
        """scrutinee: a place if it is one reached through &mut / binding by reference"""
        if e['k'] in ('Var', 'Field', 'Deref', 'Index'):
            try:
                p = self.place(e, env)
            except Undecided:
                return self.ev(e, env)
            return _PlaceV(p)
        return self.ev(e, env)

    def ev_Match(self, e, env):
        v = self.scrut(e['e'], env)
        for a in e['arms']:
            if self.match(a['p'], v, env):
                if a['g'] is not None and not self.cond(a['g'], env):
                    continue
                return self.ev(a['b'], env)
        raise Undecided('no match arm for %r' % (v.p.get() if isinstance(v, _PlaceV) else v,))

    def ev_Logical(self, e, env):
        return self.cond(e, env)

    def ev_Deref(self, e, env):
        v = self.ev(e['e'], env)
        if isinstance(v, Ref):
            return v.p.get()
        return v

    def ev_Borrow(self, e, env):
        if e['m']:
            return Ref(self.place(e['e'], env), 1)
        v = self.ev(e['e'], env)
        return Ref(Cell(v), 0)

    def ev_Field(self, e, env):
        return self.getfield(self.ev(e['e'], env), e['n'])

    def ev_Index(self, e, env):
        b = self.deref(self.ev(e['e'], env))
        i = self.deref(self.ev(e['i'], env))
        return self.index(b, i, e.get('sp'))

    def index(self, b, i, sp):
        if isinstance(b, Sym):
            b = self.materialize(b)
        if isinstance(b, Seq) and isinstance(i, int):
            if i >= len(b.items):
                raise Panic('index %d out of bounds (len %d)' % (i, len(b.items)), sp)
            return b.items[i]
        if isinstance(b, Seq) and isinstance(i, Bits) and len(b.items) >= 1 << sum(1 for x in i.b if x != 0) and i.b and all(
                x == 0 for x in i.b[sum(1 for x in i.b if x != 0):]):
            its = [self.deref(x) for x in b.items]
            if all(isinstance(x, str) and len(x) == 1 for x in its):
                return self.natives['__pick__'](self, ''.join(its), i)
            if all(isinstance(x, int) and x < 128 for x in its):
                tab = ''.join(map(chr, its))
                return Sym('tab%d[%r] as u8' % (len(tab), i), ('prim', 'u8'), 'pickbyte', (tab, i))
        raise Undecided('index')

    def ev_Adt(self, e, env):
        f = {}
        if e.get('base'):
            b = self.ev(e['base'], env)
            b = self.expand(self.deref(b))
            f.update(b.f)
        for n, x in e['f']:
            f[n] = self.ev(x, env)
        t = self.subst_ty(self.F.tys[e['t']])
        if e['a'].startswith('std::ops::Range') or e['a'].startswith('core::ops::Range'):
            nm = e['a'].split('::')[-1]
            lo = f.get('start', 0)
            hi = f.get('end')
            if nm == 'RangeToInclusive' and isinstance(hi, int):
                hi += 1
            return Obj('Range', nm, {'lo': lo, 'hi': hi})
        if e['a'] == 'std::boxed::Box':
            return f.get('0')
        return Obj(e['a'], e['v'], f, t[2] if t[0] == 'adt' else ())

    def ev_Tuple(self, e, env):
        return Tup([self.ev(x, env) for x in e['a']]) if e['a'] else UNIT

    def ev_Array(self, e, env):
        return Seq([self.ev(x, env) for x in e['a']])

    def ev_Repeat(self, e, env):
        n = e['n']
        if n < 0 or n > 4096:
            raise Undecided('repeat')
        v = self.ev(e['e'], env)
        return Seq([v] * n)

    def ev_Closure(self, e, env):
        return Clo(e, env, self.sub)

    def ev_Zst(self, e, env):
        t = self.subst_ty(self.F.tys[e['t']])
        if t[0] == 'fndef':
            return FnV({'d': t[1], 'a': list(t[2]), 'n': t[3], 'tr': t[4], 'impl': t[5]})
        if t[0] == 'adt':
            a = self.F.adts.get(t[1])
            if a and a['kind'] == 'Struct' and not a['vs'][0][1]:
                return Obj(t[1], a['vs'][0][0], {}, t[2])
        return Opaque('zst')

    def ev_NamedConst(self, e, env):
        f = self.fnref(e['f'])
        d = f['d']
        c = self.F.consts.get(d)
        if f.get('tr') and (c is None or c['b'] is None or f['a']):
            t = f['a'][0]
            found = self.F.impl_for(f['tr'], [t] + f['a'][1:])
            if found:
                it = found[0]['imap'].get(f['n'])
                if it:
                    c = self.F.consts.get(it[0])
                    return self._const(c, found[1])
        if c is not None and c['b'] is not None:
            sub = {}
            if c['impl']:
                sub = dict(zip(self.F.impls[c['impl']]['gen'], f['a']))
            return self._const(c, sub)
        r = EXT_CONSTS.get(norm_c(d))
        if r is not None:
            return r
        return self.app('const ' + norm_c(d), [], self.subst_ty(self.F.tys[e['t']]))

    def _const(self, c, sub):
        old = self.sub
        self.sub = sub
        try:
            return self.ev(c['b']['e'], Env())
        except _Ret as r:
            return r.v
        finally:
            self.sub = old

    def ev_Static(self, e, env):
        c = self.F.consts.get(e['d'])
        if c is None or c['b'] is None:
            raise Undecided('static ' + e['d'])
        return Ref(Cell(self._const(c, {})))

    def ev_Const(self, e, env):
        c = self.F.consts.get(e['d'])
        if c is None or c['b'] is None:
            raise Undecided('const ' + e['d'])
        return self._const(c, {})

    def ev_ConstParam(self, e, env):
        raise Undecided('const parameter')

    def ev_Cast(self, e, env):
        v = self.deref(self.ev(e['e'], env))
        t = self.F.tys[e['t']]
        if t[0] == 'prim':
            if isinstance(v, Bits):
                return v.cast(t[1]).simp()
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Sym) and v.op == 'pickbyte' and t[1] in ('char', 'u8', 'u32'):
                return self.natives['__pick__'](self, *v.args) if t[1] == 'char' else v
            if isinstance(v, int):
                return _wrap(v, t[1])
            if isinstance(v, str) and len(v) == 1:
                return _wrap(ord(v), t[1])
            if isinstance(v, float):
                return v if t[1] in ('f64', 'f32') else int(v)
            if isinstance(v, Obj) and v.adt in self.F.adts and self.F.adts[v.adt]['kind'] == 'Enum':
                return [n for n, _ in self.F.adts[v.adt]['vs']].index(v.var)
        return self.app('as_%s' % self.F.show(t), [v], t)

    def ev_Coerce(self, e, env):
        return self.ev(e['e'], env)

    def ev_Loop(self, e, env):
        n = 0
        while True:
            n += 1
            if n > 3000:
                raise Undecided('loop bound')
            try:
                self.ev(e['e'], env)
            except _Brk as b:
                if b.label != e.get('sc'):
                    raise
                return b.v
            except _Cont as c:
                if c.label != e.get('sc'):
                    raise
                continue

    def ev_Break(self, e, env):
        raise _Brk(self.ev(e['e'], env) if e['e'] is not None else UNIT, e['l'])

    def ev_Continue(self, e, env):
        raise _Cont(e['l'])

    def ev_Return(self, e, env):
        raise _Ret(self.ev(e['e'], env) if e['e'] is not None else UNIT)

    def ev_Assign(self, e, env):
        v = self.ev(e['r'], env)
        self.place(e['l'], env).set(v)
        return UNIT

    def ev_AssignOp(self, e, env):
        r = self.deref(self.ev(e['r'], env))
        p = self.place(e['l'], env)
        v = self.deref(p.get())
        p.set(self.binop(e['op'].replace('Assign', ''), v, r, self.subst_ty(self.F.tys[e['l'].get('t', 0)])
                         if 't' in e['l'] else None, e.get('sp')))
        return UNIT

    def ev_Binary(self, e, env):
        a = self.deref(self.ev(e['l'], env))
        b = self.deref(self.ev(e['r'], env))
        return self.binop(e['op'], a, b, self.subst_ty(self.F.tys[e['t']]), e.get('sp'))

    def binop(self, op, a, b, ty, sp):
        if isinstance(a, Bits) or isinstance(b, Bits):
            r = bits_op(op, a, b)
            if r is not None:
                return r
            raise Undecided('bit operation %s' % op)
        if op == 'Eq':
            return self.equal(a, b)
        if op == 'Ne':
            return not self.equal(a, b)
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            if op == 'Add':
                r = a + b
            elif op == 'Sub':
                r = a - b
            elif op == 'Mul':
                r = a * b
            elif op == 'Div':
                if isinstance(a, int) and isinstance(b, int):
                    if b == 0:
                        raise Panic('division by zero', sp)
                    r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                else:
                    r = a / b if b else float('inf')
            elif op == 'Rem':
                if b == 0:
                    raise Panic('remainder by zero', sp)
                r = a % b
            elif op == 'BitAnd':
                r = a & b
            elif op == 'BitOr':
                r = a | b
            elif op == 'BitXor':
                r = a ^ b
            elif op == 'Shl':
                r = a << b
            elif op == 'Shr':
                r = a >> b
            elif op in ('Lt', 'Le', 'Gt', 'Ge'):
                return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            else:
                raise Undecided('binop ' + op)
            if ty is not None and ty[0] == 'prim' and isinstance(r, int) and not isinstance(r, bool):
                lo, hi = _range(ty[1])
                if lo is not None and not lo <= r <= hi:
                    if op in ('Shl',):
                        return _wrap(r, ty[1])
                    raise Panic('arithmetic overflow', sp)
            return r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, str) and isinstance(b, str):
                return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            if op in ('Ge', 'Gt'):
                a, b = b, a
                op = {'Ge': 'Le', 'Gt': 'Lt'}[op]
            return self.cmp_split(a, b, op == 'Le')
        if ty is None:
            ty = self.type_of(a) or self.type_of(b)
        if getattr(self, 'anytext', False):
            self.may_overflow(op, a, b, ty, sp)
        return self.app(op.lower(), [a, b], ty)

    def may_overflow(self, op, a, b, ty, sp):
        """arithmetic on numbers that come from arbitrary text, unless the path has compared them"""
        if ty is None or ty[0] != 'prim' or _range(ty[1])[0] is None or op not in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            return
        for x in (b,) if op in ('Div', 'Rem') else (a, b):
            if not isinstance(x, Sym):
                continue
            free = x.name.startswith('number') or 'from_str' in x.name or (op == 'Sub' and x is a and x.name.startswith('len('))
            if not free or any(x.name in d for d in self.pc):
                continue
            if op in ('Add', 'Sub') and 0 in (a, b) and not (op == 'Sub' and a == 0):
                continue
            if op == 'Mul' and (a in (0, 1) or b in (0, 1)):
                continue
            if self.decide('overflow(%s,%s,%s)' % (op, self.show(a), self.show(b))):
                raise Panic('arithmetic overflow on a number that is read', sp)
            return

    def ev_Unary(self, e, env):
        v = self.deref(self.ev(e['e'], env))
        if e['op'] == 'Not':
            if isinstance(v, bool):
                return not v
            if isinstance(v, Sym) and v.ty == ('prim', 'bool'):
                return not self.truth(v)
            if isinstance(v, int):
                t = self.F.tys[e['t']]
                return _wrap(~v, t[1])
        if e['op'] == 'Neg' and isinstance(v, (int, float)):
            return -v
        return self.app(e['op'].lower(), [v], self.subst_ty(self.F.tys[e['t']]))

    def ev_Call(self, e, env):
        f = self.fnref(e['f'])
        args = [self.ev(a, env) for a in e['args']]
        ret = self.subst_ty(self.F.tys[e['t']])
        if ret[0] == 'alias':
            r = e.get('r')
            if r:
                pass
        if self.stack_sp is not None:
            self.stack_sp = e.get('sp')
        return self.call(f, args, ret, e.get('sp'))

    stack_sp = ''

    def ev_CallPtr(self, e, env):
        f = self.ev(e['fun'], env)
        args = [self.ev(a, env) for a in e['args']]
        return self.callv(f, args, self.subst_ty(self.F.tys[e['t']]))

    def ev_Unsupported(self, e, env):
        raise Undecided('unsupported expression')

    # ---- convenience -----------------------------------------------------
    def find_method(self, ty, name, trait=None):
        """fn key + substitution for method `name` on type ty"""
        if trait:
            r = self.F.impl_for(trait, [ty])
            if r and name in r[0]['imap']:
                return r[0]['imap'][name][0], r[1]
            return None
        for im in self.F.inherent:
            if name in im['imap']:
                b = {}
                if self.F.unify(im['self'], ty, b):
                    return im['imap'][name][0], b
        return None

    def natives_items(self, v):
        return self.natives['__items__'](self, v)

    def display(self, v, fmt):
        """append the Display rendering of v to fmt.out"""
        self.natives['__display__'](self, v, fmt)

    def to_text(self, v):
        f = Fmt()
        self.display(v, f)
        return mktxt(f.out)


class Call:
    __slots__ = ('f', 'targs', 'args', 'ret', 'sp', 'selfty')

    def __init__(self, f, targs, args, ret, sp, selfty):
        self.f = f
        self.targs = targs
        self.args = args
        self.ret = ret
        self.sp = sp
        self.selfty = selfty


class _PlaceV:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


def _rconst(c):
    c = c.strip()
    if c == '':
        return None
    m = re.match(r"^'(.*)'$", c, re.S)
    if m:
        s = m.group(1)
        return {'\\n': '\n', '\\t': '\t', '\\r': '\r', "\\'": "'", '\\\\': '\\', '\\0': '\0'}.get(s, s)
    m = re.match(r'^(-?\d+)(?:_[iu](?:8|16|32|64|128|size))?$', c)
    if m:
        return int(m.group(1))
    m = re.match(r'^(-?[\d.eE+-]+)(?:_?f(?:32|64))$', c)
    if m:
        return float(m.group(1))
    if c in ('true', 'false'):
        return c == 'true'
    m = re.match(r'^"(.*)"$', c, re.S)
    if m:
        return m.group(1)
    return None


_BITS = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
         'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
         'isize': (-2**63, 2**63 - 1), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1)}


def _range(t):
    return _BITS.get(t, (None, None))


def _wrap(v, t):
    if t in ('f64', 'f32'):
        return float(v)
    if t == 'char':
        return chr(v)
    lo, hi = _range(t)
    if lo is None:
        return v
    n = hi - lo + 1
    return (v - lo) % n + lo


BUILTIN_TRAITS = {'std::iter::Iterator', 'std::any::Any', 'winnow::Parser'}
DERIVED_NATIVE = {'std::clone::Clone', 'std::cmp::PartialEq', 'std::fmt::Debug', 'std::cmp::Ord', 'std::cmp::PartialOrd',
                  'std::hash::Hash', 'std::cmp::Eq'}
F64 = ('prim', 'f64')
EXT_STRUCTS = {
    'bevy_math::DVec2': [('x', F64), ('y', F64)],
    'bevy_math::DVec3': [('x', F64), ('y', F64), ('z', F64)],
}


def _dv(n, *xs):
    return Obj('bevy_math::' + n, n, dict(zip('xyz', map(float, xs))))


EXT_CONSTS = {
    'DVec3::X': _dv('DVec3', 1, 0, 0), 'DVec3::Y': _dv('DVec3', 0, 1, 0), 'DVec3::Z': _dv('DVec3', 0, 0, 1),
    'DVec3::ZERO': _dv('DVec3', 0, 0, 0), 'DVec2::ZERO': _dv('DVec2', 0, 0), 'DVec2::X': _dv('DVec2', 1, 0),
    'DVec2::Y': _dv('DVec2', 0, 1), 'usize::MAX': 2**64 - 1, 'u64::MAX': 2**64 - 1, 'i64::MAX': 2**63 - 1,
    'DVec3::ONE': _dv('DVec3', 1, 1, 1), 'DVec3::NEG_Z': _dv('DVec3', 0, 0, -1),
}

_EV = {n[3:]: getattr(Interp, n) for n in dir(Interp) if n.startswith('ev_')}
