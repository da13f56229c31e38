"""P07: what the typed interface builds passes reference verification."""
import itertools
import re
import refs
from interp import *
from rule_build import Build, World, CTORS, SETTERS, find, setters, short, split_spec
from rule_refs import VER, expected
from rule_store import IFCTYPE, USIZE


class Valid(Build):
    def __init__(self, F):
        Build.__init__(self, F)
        self.raw = {}

    def is_entity(self, t):
        return t in self.ents

    def hasref(self, t):
        if t not in self.raw:
            self.raw[t] = refs.has_ref(self.F, t)
        return self.raw[t]


def entry(B, J, s, t):
    """number of an additional entry of type t"""
    n = len(s.names)
    k, e = 'k%d' % n, 'e%d' % n
    s.names.append(k)
    J.data['order'].append(k)
    i = s.id(Sym(k, USIZE))
    J.refine[e] = t
    s.ents.append((i, Sym(e, ('dyn', IFCTYPE))))
    s.cell.set(Obj(s.DM[1], 'DataMap', {'0': Map('BTreeMap', list(s.ents))}))
    s.c.set(J.setfield(s.c.get(), 'data', s.cell.get()))
    return i


class RawId(Exception):
    """an argument is a number without a type: the caller vouches for it"""


def inhabit(B, J, s, v, given):
    """the unknown value v with every reference in it naming an entry; optional references of things that are not
    arguments are absent"""
    v = J.deref(v)
    if isinstance(v, Seq):
        return Seq(inhabit(B, J, s, x, given) for x in v.items)
    if isinstance(v, It):
        return It([inhabit(B, J, s, x, given) for x in v.items])
    if isinstance(v, Tup):
        return Tup(inhabit(B, J, s, x, given) for x in v.items)
    if isinstance(v, Obj):
        n = v.adt.split('::')[-1]
        if n == 'TypedId':
            return Obj(v.adt, v.var, {**v.f, 'id': entry(B, J, s, v.targs[0])}, v.targs)
        if n == 'Id' and v.adt.startswith('::'):
            if given:
                raise RawId()
            return entry(B, J, s, B.dummy)
        return Obj(v.adt, v.var, {k: inhabit(B, J, s, x, given) for k, x in v.f.items()}, v.targs)
    if not isinstance(v, Sym) or not B.hasref(v.ty):
        return v
    if given and B.is_entity(v.ty):
        return v                # given in place: becomes an entry, itself an obligation of its type
    n = short(v.ty)
    if n == 'Id' and v.ty[1].startswith('::'):
        if given:
            raise RawId()
        return entry(B, J, s, B.dummy)
    if n in ('Vec', 'VecDeque'):
        return Seq(inhabit(B, J, s, x, given) for x in (J.items(v) if given else ()))
    if not given and n in ('OptionalParameter', 'Option'):
        vs = J.variants_of(v.ty)
        J.refine[v.name] = 'Omitted' if 'Omitted' in vs else 'None'
        return J.expand(v)
    if n == 'IdOr' and not given:
        J.refine[v.name] = 'Id'
    if v.ty[0] != 'adt':
        raise Undecided('argument of type %s' % B.F.show(v.ty))
    return inhabit(B, J, s, J.expand(v), given)


def verdict(B, J, s, t, out):
    s.sync()
    r = J.deref(J.call_trait({'d': VER + '::verify_id_types', 'a': [t], 'n': 'verify_id_types', 'tr': VER},
                             [tmp(out), s.ifc(0)], None, None))
    return (J.variant(r) if isinstance(r, Sym) else r.var) == 'Ok'


def p07(ctx):
    F = ctx.F
    B = Valid(F)
    I = B.I
    I.lens = (0, 1, 2)
    B.dummy = next(t for t in B.ents if F.show(t) == 'Dummy')

    def run(kind, key, what, body):
        n = 0
        hit = set()
        for k, r in I.paths(body):
            n += 1
            if k == 'undecided':
                ctx.undecided(kind, key, r)
            elif k == 'panic':
                ctx.undecided(kind, key, 'panics: %s' % r)
            elif r == 'raw':
                hit.add('raw')
            elif not r:
                ctx.bad(kind, key, '%s makes an entry that verification refuses, from references of the declared kinds' % what)
            else:
                ctx.good(kind, '%s passes verification' % what)
        ctx.count('paths', n)
        if hit:
            ctx.count('plain numbers')

    names = {F.show(t) for t in B.ents}

    def wide(t, fn, b, c, fields):
        """a parameter that may be an entry of any kind: only the kinds the schema admits there count"""
        for (g, u), (i, f) in itertools.product(c.sub.items(), enumerate(fields)):
            if u in B.ents and f and ('param', g) in leaves(fn['ins'][i], fn, b, B) and \
                    {tr for tr, _ in B.bounds(fn, b, g) if tr.startswith('::')} <= {IFCTYPE, VER}:
                for s in refs.slots(F, t):
                    if s.path.split('.')[-1] == f:
                        want = expected(F, s, names)
                        if want is not None and F.show(u) not in want:
                            return True
        return False

    done = set()
    for name, spec in CTORS.items():
        for t, fn in find(B, name):
            if t not in B.ents or fn['d'] in done:
                continue
            done.add(fn['d'])
            try:
                cases = list(B.cases(fn, {}))
            except Undecided as e:
                ctx.undecided('constructor', name, str(e))
                continue
            ctx.count('constructors')
            for c in cases:
                if c.label.endswith('plain id') or wide(t, fn, {}, c, split_spec(spec)):
                    continue
                by = c.label.rsplit(' ', 1)[0]
                what = name + (' with %s' % by if by.strip() and not by.endswith(('id', 'value')) else '')
                run('constructor', what, what, lambda J, fn=fn, c=c, t=t: made(B, J, t, fn, c))
    for t in B.ents:
        if not B.hasref(t):
            continue
        for n, fn, b in setters(B, t):
            name = '%s::%s' % (F.show(t), n)
            field = SETTERS.get(name) or SETTERS.get(n) or n
            try:
                cases = list(B.cases(fn, b))
            except Undecided as e:
                ctx.undecided('setter', name, str(e))
                continue
            if not any(B.hasref(F.subst(ty, c.sub)) or B.is_entity(ty) for c in cases for _, ty, _ in c.args[1:]):
                continue
            ctx.count('setters')
            for c in cases:
                if c.label.endswith('plain id') or wide(t, fn, b, c, [None] + [field] * (len(fn['ins']) - 1)):
                    continue
                by = c.label.rsplit(' ', 1)[0]
                what = name + (' with %s' % by if by.strip() and not by.endswith(('id', 'value')) else '')
                run('setter', what, what, lambda J, fn=fn, c=c, t=t: altered(B, J, t, fn, c))
    ctx.floor('constructor', 100)
    ctx.floor('setter', 150)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['numbers of entries of different arguments differ', 'an entry given in place is an obligation of its own kind']
    return ('Abstract interpretation of every public constructor and setter of an entity that takes references, with every '
            'admissible type argument, followed by abstract interpretation of the derived verification of the result in the '
            'model as it then is: every verdict must be Ok. Typed references name an entry of their kind. For parameters that '
            'may be an entry of any kind, the kinds are those the schema admits for the attribute.')


def leaves(t, fn, b, B):
    """type parameters a parameter type mentions, through its bounds"""
    if t[0] == 'param':
        out = {t}
        for tr, a in B.bounds(fn, b, t[1]):
            for x in a:
                if x != t:
                    out |= leaves(x, fn, b, B)
        m = re.search(r'Item = (?:impl Into<)?(?:IdOr<|TypedId<)?(\w+)', t[1])
        if m:
            out.add(('param', m.group(1)))
        return out
    out = set()
    subs = t[2] if t[0] == 'adt' else t[1] if t[0] == 'tuple' else (t[1],) if t[0] in ('ref', 'slice', 'array') else ()
    for x in subs:
        out |= leaves(x, fn, b, B)
    return out


def args_of(B, J, s, args):
    out = []
    late = []
    for i, (_, ty, mk) in enumerate(args):
        if ty[0] == 'ref' and ty[1] == B.IFC:
            late.append(i)
            out.append(mk)
        else:
            out.append(inhabit(B, J, s, mk(J, s), True) if B.hasref(ty) else mk(J, s))
    for i in late:
        out[i] = out[i](J, s)
    return out


def made(B, J, t, fn, c):
    s = World(J, 1, B.IFC)
    try:
        args = args_of(B, J, s, c.args)
    except RawId:
        return 'raw'
    return verdict(B, J, s, t, J.run_fn(fn, dict(c.sub), args))


def altered(B, J, t, fn, c):
    s = World(J, 1, B.IFC)
    me = inhabit(B, J, s, J.sym('v', t), False)
    byref = fn['ins'][0][0] == 'ref'
    cell = Cell(me)
    try:
        args = args_of(B, J, s, c.args[1:])
    except RawId:
        return 'raw'
    out = J.run_fn(fn, c.sub, [Ref(cell, 1) if byref else me] + args)
    return verdict(B, J, s, t, cell.get() if byref else out)
