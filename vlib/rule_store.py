"""P09: the store of entries keeps ids, entries and kinds apart."""
import itertools
import rule_text
from interp import *

IFCTYPE = '::traits::ifc_type::IfcType'
USIZE = ('prim', 'usize')


def callm(I, ty, name, targs, args):
    """call the inherent method `name` of ty with its own type arguments"""
    r = I.find_method(ty, name)
    if r is None:
        raise KeyError(name)
    key, b = r
    fn = I.F.fns[key]
    sub = dict(b)
    own = [g for g in fn['gen'] if g not in sub]
    sub.update(zip(own, targs))
    return I.run_fn(fn, sub, args)


class Store:
    """a store with n arbitrary entries under arbitrary distinct numbers"""

    def __init__(self, J, n, gapless=False):
        F = J.F
        self.J = J
        self.DM = ('adt', F.find_adt('DataMap'), ())
        self.ID = F.find_adt('Id')
        self.names = ['k%d' % i for i in range(n)]
        J.data['order'] = list(self.names)
        self.ents = [(self.id(Sym(k, USIZE)), Sym('e%d' % i, ('dyn', IFCTYPE))) for i, k in enumerate(self.names)]
        self.cell = Cell(Obj(self.DM[1], 'DataMap', {'0': Map('BTreeMap', list(self.ents))}))
        self.map = lambda: J.deref(J.getfield(self.cell.get(), '0'))

    def id(self, n):
        return Obj(self.ID, 'Id', {'0': n})

    def ref(self, m=1):
        return Ref(self.cell, m)

    def entries(self):
        m = self.map()
        return [(J_deref(self.J, k), J_deref(self.J, v)) for k, v in m.items]

    def at(self, k):
        """entry under number k now (None, value or 'unknown')"""
        for kk, v in self.entries():
            if self.same(kk, k):
                return v
        return None

    def same(self, a, b):
        r = self.J.order(a, b)
        if r is not None:
            return r == 0
        return self.J.same(a, b)

    def unchanged(self, but=()):
        """problem text when an entry other than `but` differs from the initial one"""
        J = self.J
        now = self.entries()
        for k, v in self.ents:
            if any(self.same(k, b) for b in but):
                continue
            w = [x for kk, x in now if self.same(kk, k)]
            if len(w) != 1 or not same_entry(J, w[0], v):
                return 'the entry %s is changed or lost' % J.show(k)
        for kk, _ in now:
            if not any(self.same(kk, k) for k, _ in self.ents) and not any(self.same(kk, b) for b in but):
                return 'an additional entry %s appears' % J.show(kk)
        return None


def J_deref(J, v):
    return J.deref(v)


def same_entry(J, a, b):
    a, b = J.deref(a), J.deref(b)
    strip = lambda v: v.name.rstrip('!') if isinstance(v, Sym) else None
    if strip(a) is not None and strip(b) is not None:
        return strip(a) == strip(b)
    full = lambda v: J.sym(v.name + '!', J.refine[v.name]) if isinstance(v, Sym) and v.ty[0] == 'dyn' and v.name in J.refine else v
    a, b = full(a), full(b)
    return J.same(a, b)


def idof(J, v):
    """Id of a (typed) id value"""
    v = J.deref(v)
    while isinstance(v, Obj) and v.adt.split('::')[-1] != 'Id':
        fs = [x for k, x in v.f.items() if isinstance(J.deref(x), Obj) and J.deref(x).adt.split('::')[-1] in ('Id', 'TypedId')]
        if not fs:
            return None
        v = J.deref(fs[0])
    if isinstance(v, Sym):
        return J.expand(v) if v.ty[1].split('::')[-1] == 'Id' else idof(J, J.getfield(v, 'id'))
    return v


def opt(J, v):
    v = J.deref(v)
    var = v.var if isinstance(v, Obj) else J.variant(v)
    return None if var == 'None' else J.deref(J.getfield(v, '0'))


def p09(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    ents = rule_text.entity_types(F)
    by = {F.show(t): t for t in ents}
    T, U = by['Organization'], by['Application']
    DM = ('adt', F.find_adt('DataMap'), ())
    IFC = ('adt', F.find_adt('IFC'), ())
    IDT = ('adt', F.find_adt('Id'), ())
    typed = lambda t: ('adt', F.find_adt('TypedId'), (t,))
    I.dyn_types = lambda v: [T, U]
    sizes = (0, 1, 2, 3) if ctx.tier == 'quick' else (0, 1, 2, 3, 4)

    def case(kind, n, body, allow_panic=None):
        def run(J):
            s = Store(J, n)
            return body(J, s)
        count = 0
        for k, r in I.paths(run):
            count += 1
            key = '%s with %d entries' % (kind, n)
            if k == 'undecided':
                ctx.undecided(kind, key, r)
            elif k == 'panic':
                if allow_panic and allow_panic(r):
                    ctx.good(kind)
                else:
                    ctx.bad(kind, kind, '%s: panics: %s' % (key, r))
            elif r is None:
                ctx.good(kind, key)
            else:
                ctx.bad(kind, kind, '%s: %s [%s]' % (key, r, ' '.join(l for _, _, l in I.trail)[:200]))
        ctx.count('paths', count)
        if not count:
            ctx.bad(kind, kind, 'no path analysed')

    def m(name):
        if I.find_method(DM, name) is None:
            ctx.anchor_missing('method %s of the entry store' % name)
            return False
        return True

    for n in sizes:
        if m('insert_new'):
            def body(J, s):
                v = J.sym('new', T)
                tid = callm(J, DM, 'insert_new', [T], [s.ref(), v])
                k = idof(J, tid)
                if any(J.order(k, e) == 0 or (J.order(k, e) is None and J.equal(k, e)) for e, _ in s.ents):
                    return 'a new entry gets a number that is already in use'
                if not same_entry(J, s.at(k) or UNIT, v):
                    return 'the new entry is not stored under the number that is returned'
                return s.unchanged([k])
            case('insert_new', n, body)

            def twice(J, s):
                v, w = J.sym('new', T), J.sym('new2', U)
                a = idof(J, callm(J, DM, 'insert_new', [T], [s.ref(), v]))
                if s.names:
                    b = idof(J, callm(J, DM, 'insert_new', [U], [s.ref(), w]))
                else:
                    b = idof(J, callm(J, DM, 'insert_new', [U], [s.ref(), w]))
                if J.equal(a, b):
                    return 'two new entries share a number'
                if not same_entry(J, s.at(a) or UNIT, v) or not same_entry(J, s.at(b) or UNIT, w):
                    return 'a new entry is not stored under the number that is returned'
                return s.unchanged([a, b])
            case('insert_new twice', n, twice)
            if n and m('remove'):
                for j in range(n):
                    def rem(J, s, j=j):
                        callm(J, DM, 'remove', [IDT], [s.ref(), s.ents[j][0]])
                        r = s.unchanged([s.ents[j][0]])
                        if r:
                            return r
                        v = J.sym('new', T)
                        k = idof(J, callm(J, DM, 'insert_new', [T], [s.ref(), v]))
                        for i, (e, _) in enumerate(s.ents):
                            if i != j and J.equal(k, e):
                                return 'after a removal a new entry gets a number that is already in use'
                        return s.unchanged([s.ents[j][0], k])
                    case('remove, then insert_new', n, rem)

        # explicit numbers: one of the existing ones, or another
        for j in range(n + 1):
            def key(J, s, j=j):
                return s.ents[j][0] if j < n else s.id(fresh(J))

            def fresh(J):
                x = Sym('q', USIZE)
                for k in J.data['order']:
                    J.pc['eq(%s)' % ','.join(sorted((k, 'q')))] = False
                    a, b = sorted(('Id{0:%s}' % k, 'Id{0:q}'))
                    J.pc['eq(%s,%s)' % (a, b)] = False
                return x
            if m('insert'):
                def ins(J, s, key=key, j=j):
                    v = J.sym('new', T)
                    k = key(J, s)
                    old = opt(J, callm(J, DM, 'insert', [T, IDT], [s.ref(), k, v]))
                    if (old is None) != (j == n) or (old is not None and not same_entry(J, old, s.ents[j][1])):
                        return 'insert does not report the entry it replaces'
                    if not same_entry(J, s.at(k) or UNIT, v):
                        return 'the entry is not stored under the given number'
                    return s.unchanged([k])
                case('insert', n, ins)
            if m('insert_if_not_exists'):
                def ine(J, s, key=key, j=j):
                    k = key(J, s)
                    callm(J, DM, 'insert_if_not_exists', [by.get('Dummy', T), IDT], [s.ref(), k])
                    if j < n:
                        return s.unchanged()
                    if s.at(k) is None:
                        return 'a missing entry is not inserted'
                    return s.unchanged([k])
                if F.implements('std::default::Default', [by['Dummy']]):
                    case('insert_if_not_exists', n, ine)
            if m('remove'):
                def rm(J, s, key=key, j=j):
                    k = key(J, s)
                    old = opt(J, callm(J, DM, 'remove', [IDT], [s.ref(), k]))
                    if (old is None) != (j == n) or (old is not None and not same_entry(J, old, s.ents[j][1])):
                        return 'remove does not return the entry'
                    if s.at(k) is not None:
                        return 'the entry is still there'
                    return s.unchanged([k])
                case('remove', n, rm)
            if m('contains'):
                def co(J, s, key=key, j=j):
                    r = J.deref(callm(J, DM, 'contains', [], [s.ref(0), tmp(key(J, s))]))
                    if r is not (j < n):
                        return 'contains answers %r' % (r,)
                    return s.unchanged()
                case('contains', n, co)
            if j < n and m('get_untyped'):
                def gu(J, s, j=j):
                    r = J.deref(callm(J, DM, 'get_untyped', [IDT], [s.ref(0), s.ents[j][0]]))
                    return None if same_entry(J, r, s.ents[j][1]) else 'another entry is returned: %s' % J.show(r)
                case('get_untyped', n, gu)
            if j < n:
                for name in ('get', 'get_mut'):
                    if m(name):
                        def ge(J, s, j=j, name=name):
                            e = s.ents[j][1]
                            J.refine[e.name] = T
                            TI = Obj(typed(T)[1], 'TypedId', {'id': s.ents[j][0], **phantom(F, typed(T))}, (T,))
                            r = J.deref(callm(J, DM, name, [T], [s.ref(), TI]))
                            return None if same_entry(J, r, e) else 'another entry is returned: %s' % J.show(r)
                        case(name, n, ge)
        for name in ('find_all_of_type', 'id_of'):
            if m(name):
                def fa(J, s, name=name):
                    it = callm(J, DM, name, [T], [s.ref(0)])
                    got = [J.deref(x) for x in J.natives_items(it)]
                    ids = []
                    for x in got:
                        if name == 'id_of':
                            ids.append(idof(J, x))
                        else:
                            k = idof(J, x.items[0])
                            ids.append(k)
                            own = [v for kk, v in s.ents if s.same(kk, k)]
                            if not own or not same_entry(J, x.items[1], own[0]):
                                return 'a number is paired with another entry'
                    want = [k for k, v in s.ents if J.refine.get(v.name) == T]
                    if any(J.refine.get(v.name) is None and len(J.domain(v)) > 1 for _, v in s.ents):
                        return 'the kind of an entry is not examined'
                    if len(ids) != len(want) or not all(any(s.same(a, b) for b in ids) for a in want):
                        return 'entries of the kind: %s, returned: %s' % ([J.show(x) for x in want], [J.show(x) for x in ids])
                    return s.unchanged()
                case(name, n, fa)

    # references or in-place values given to constructors
    IDOR = ('adt', F.find_adt('IdOr'), (T,))
    r = I.find_method(IDOR, 'or_insert')
    if r is None:
        ctx.anchor_missing('storing an in-place value')
    else:
        for n in sizes[:3]:
            def oi(J, s):
                ifc = Cell(Obj(IFC[1], 'IFC', {'header': UNIT, 'data': s.cell.get(), 'footer': UNIT}))
                v = J.sym('x', IDOR)
                tid = callm(J, IDOR, 'or_insert', [], [v, Ref(ifc, 1)])
                s.cell.set(J.getfield(ifc.get(), 'data'))
                k = idof(J, tid)
                if J.variant(v) == 'Id':
                    if not J.same(k, idof(J, J.sym('x@Id.0', typed(T)))):
                        return 'another number is used than the given one'
                    return s.unchanged()
                if any(J.equal(k, e) for e, _ in s.ents):
                    return 'the new entry gets a number that is already in use'
                if not same_entry(J, s.at(k) or UNIT, J.sym('x@Custom.0', T)):
                    return 'the in-place value is not stored under the returned number'
                return s.unchanged([k])
            case('reference or new entry', n, oi)

    # building a store from pairs
    conv = F.impls_by_trait.get('std::convert::From', [])
    conv = [im for im in conv if im['self'] == DM]
    for im in conv:
        key = im['imap'].get('from', [None])[0]
        for n in sizes[1:3]:
            def fr(J, s):
                pairs = Seq([Tup((k, v)) for k, v in s.ents])
                out = J.run_fn(F.fns[key], {im['gen'][0]: ('adt', 'std::vec::Vec', (('tuple', (IDT, ('dyn', IFCTYPE))),))}, [pairs])
                s.cell.set(J.deref(out))
                return s.unchanged()
            case('store from pairs', n, fr)
    ctx.floor('insert_new', 4)
    ctx.floor('insert', 8)
    ctx.floor('remove', 8)
    ctx.floor('find_all_of_type', 8)
    ctx.floor('get', 5)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['BTreeMap behaves as modelled in vlib/natives.py', 'numbers stay below the largest machine number',
                        'stores of 0..3 (thorough 0..4) entries stand for any size: the code is uniform in further entries',
                        'the generic operations are parametric: they are analysed for one entry type among two']
    return ('Abstract interpretation of every operation of the entry store on stores with symbolic, strictly increasing but '
            'otherwise arbitrary numbers (an order domain with offsets), arbitrary gaps and entries of arbitrary kind; the '
            'resulting store is compared entry by entry with the one the operation must produce.')


def phantom(F, ty):
    return {n: Obj('std::marker::PhantomData', 'PhantomData', {}, ()) for n, t in F.fields(ty) if t[0] == 'adt' and
            t[1].endswith('PhantomData')}
