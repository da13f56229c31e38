"""P10/P11: a new project, property sets, moved elements."""
import geo
from interp import *
from rule_build import Check, norm, short, pname
from rule_builder import BB, Call, Model, RELS, Scenario, Stage, V, ZERO, kind, own_id, same_entry, show_rel
from rule_valid import VER


def verified(B, J, M, old):
    out = []
    for key, e in M.items:
        if key in old:
            continue
        t = J.type_of(e)
        if t[0] != 'adt':
            raise Undecided('an entry of unknown type')
        r = J.deref(J.call_trait({'d': VER + '::verify_id_types', 'a': [t], 'n': 'verify_id_types', 'tr': VER},
                                 [tmp(e), tmp(M.ifc)], None, None))
        if (J.variant(r) if isinstance(r, Sym) else r.var) != 'Ok':
            out.append('a %s is written that verification refuses' % B.F.show(t))
    return out


# ---- a new project -------------------------------------------------------
def project(B, J):
    F = B.F
    fn = F.fns[J.find_method(B.PB, 'new')[0]]
    lone = Stage(B, J, 0)
    args = [lone.inst(t, 'arg%d' % i) for i, t in enumerate(fn['ins'])]
    app, owner, name = [args[i] for i in order(F, fn['ins'])]
    pb = J.deref(J.run_fn(fn, {}, args))
    sc = Scenario.__new__(Scenario)
    sc.B, sc.J, sc.stack, sc.all = B, J, [], []
    sc.s = Stage.__new__(Stage)
    sc.s.project = Cell(pb)
    M = sc.finish()
    if M is None:
        return ['the text built is not that of the model']
    out = []
    ck = Check(B, J, None)

    def want(e, f, w):
        r = ck.holds(M.field(e, f), w)
        if r:
            out.append('%s.%s: %s' % (kind(e), f, r))

    def one(k):
        es = [e for _, e in M.items if kind(e) == k]
        if len(es) != 1:
            out.append('%d entries %s' % (len(es), k))
            raise Gone
        return es[0]

    def follow(e, f, k):
        x = M.follow(e, f)
        if x is None or J.F.show(J.type_of(x)) != k:
            out.append('%s.%s is no %s' % (kind(e), f, k))
            raise Gone
        return x
    try:
        p = one('Project')
        want(p, 'name', name)
        oh = follow(p, 'owner_history', 'OwnerHistory')
        if B.F.show(J.type_of(oh)) != 'OwnerHistory':
            out.append('no owner history')
        user = follow(oh, 'owning_user', 'PersonAndOrganization')
        if not same_entry(J, follow(user, 'the_person', 'Person'), J.getfield(owner, 'owner')):
            out.append('the owner is not the person given')
        want(follow(user, 'the_organization', 'Organization'), 'name', J.getfield(owner, 'organization_name'))
        a = follow(oh, 'owning_application', 'Application')
        for f, g in (('version', 'version'), ('application_full_name', 'name'), ('application_identifier', 'short_name')):
            want(a, f, J.getfield(app, g))
        dev = M.follow(a, 'application_developer')
        if dev is None or not same_entry(J, dev, J.getfield(app, 'developer')):
            out.append('the developer is not the organization given')
        us = follow(p, 'units_in_context', 'UnitAssigment')
        got = set()
        for x in J.items(norm(J, M.field(us, 'units'))):
            u = M.at.get(M.key(x))
            if kind(u) != 'SiUnit':
                out.append('a unit that is not written')
                continue
            pre = norm(J, M.field(u, 'prefix'))
            got.add((norm(J, M.field(u, 'unit_type')).var, pre if isinstance(pre, str) else pre.var,
                     norm(J, M.field(u, 'name')).var))
        exp = {('LengthUnit', 'Omitted', 'Metre'), ('PlaneAngleUnit', 'Omitted', 'Radian'), ('TimeUnit', 'Omitted', 'Second')}
        if got != exp:
            out.append('the units are %s' % sorted(got))
        ctx = [M.key(x) for x in J.items(norm(J, M.field(p, 'representation_context')))]
        if len(ctx) != 1 or kind(M.at.get(ctx[0])) != 'GeometricRepresentationContext':
            out.append('the project has no geometric context')
            raise Gone
        g = M.at[ctx[0]]
        if norm(J, M.field(g, 'coord_space_dimension')).var != 'Three':
            out.append('the context is not three-dimensional')
        loc = follow(follow(g, 'world_coord_system', 'Axis3D'), 'location', 'Point3D')
        if geo.vec(J, loc) != geo.vec(J, ZERO):
            out.append('the world starts at %s' % geo.vshow(geo.vec(J, loc)))
        sub = one('GeometricRepresentationSubContext')
        if M.key(M.field(sub, 'parent_context')) != ctx[0]:
            out.append('the sub-context is not one of the context of the project')
        if norm(J, M.field(sub, 'target_view')).var != 'ModelView':
            out.append('the sub-context is not the model view')
        for r in M.rels:
            out.append('%s appears' % show_rel(r))
    except Gone:
        pass
    return out + verified(B, J, M, ())


class Gone(Exception):
    pass


def order(F, ins):
    """positions of application, owner and name among the parameters"""
    n = [F.show(t) for t in ins]
    return [next(i for i, x in enumerate(n) if k in x) for k in ('Application', 'Owner', 'str')]


# ---- property sets -------------------------------------------------------
def properties(B, J, n, host):
    """a property set with n values, related to a wall or to any object"""
    base = Scenario(B, J, 1, 'IfcStoreyBuilder')
    hist = (('vertical_wall',) if host == 'wall' else ()) + ('add_properties',) + ('single_property',) * n
    J.data['order'] = []
    sc = Scenario(B, J, 1, 'IfcStoreyBuilder')
    sc.s.entry(B.type('Dummy'))
    prep = sc.plan(hist, False)
    rel = None
    if host != 'wall':
        rel = sc.prepare('relate_properties_object', False, ('adt', B.F.find_adt('IfcStoreyBuilder'), ()))
        sc.s.store()
    # every value has arguments of its own
    for i, (m, (fn, sub, args)) in enumerate(prep):
        if m == 'single_property':
            args[:] = [J.sym('value%d.%d' % (i, j), t) for j, t in enumerate(fn['ins'][1:])]
            args[2] = some(sc.s.entry(B.type('SiUnit'))) if i % 2 else NONE
    sc.s.store()
    ids, obj = [], None
    for m, p in prep:
        r = sc.call(m, p)
        if m == 'single_property':
            ids.append((r, p[2]))
        if m == 'vertical_wall':
            obj = own_id(J, sc.stack[-1], 'Wall')
    if host != 'wall':
        fin = sc.method('finish')
        ps = J.deref(J.run_fn(fin[0], fin[1], [sc.stack[-1].get()]))
        sc.end()
        fn, sub, args = rel
        args[0] = ps
        obj = args[1]
        J.run_fn(fn, sub, [Ref(sc.stack[-1], 1)] + args)
    else:
        sc.end()
    M = sc.finish()
    if M is None:
        return ['the text built is not that of the model']
    out = []
    ck = Check(B, J, None)
    old = {M.key(i) for i, _ in sc.s.ents}
    name = [p for m, p in prep if m == 'add_properties'][0][2][0]
    rels = [(a, b) for r, a, b in M.rels if r == 'RelDefinesByProperties' and a not in old]
    if len(rels) != 1 or rels[0][1] != M.key(obj):
        out.append('the set is related to %d things' % len(rels))
        return out
    s = M.at.get(rels[0][0])
    if kind(s) != 'PropertySet':
        return ['the set is not written']
    if host != 'wall' and M.key(ps) != rels[0][0]:
        out.append('another set is related')
    r = ck.holds(M.field(s, 'name'), name)
    if r:
        out.append('name of the set: %s' % r)
    got = [M.key(x) for x in J.items(norm(J, M.field(s, 'properties')))]
    if got != [M.key(i) for i, _ in ids]:
        out.append('the set has %d of %d values, or in another order' % (len(got), len(ids)))
    for i, (pn, val, unit) in ids:
        e = M.at.get(M.key(i))
        if kind(e) != 'PropertySingleValue':
            out.append('a value is not written')
            continue
        for f, w in (('name', pn), ('value', val), ('unit', unit)):
            r = ck.holds(M.field(e, f), w)
            if r:
                out.append('%s of a value: %s' % (f, r))
    for i, e in sc.s.ents:
        x = M.at.get(M.key(i))
        if x is None or not same_entry(J, x, e):
            out.append('the entry %s is changed or lost' % M.key(i))
    return out + verified(B, J, M, old)


# ---- moved elements ------------------------------------------------------
MOVES = [
    ('vertical_wall', ()), ('vertical_wall', ('vertical_opening',)), ('vertical_wall', ('opening',)),
    ('vertical_wall', ('window_with_opening',)), ('arbitrary_wall', ('window_with_opening', 'vertical_opening')),
    ('arbitrary_slab', ()), ('arbitrary_slab', ('rect_opening',)), ('arbitrary_slab', ('window_with_opening',)),
    ('arbitrary_slab', ('horizontal_arbitrary_opening',)),
    ('horizontal_arbitrary_slab', ()), ('vertical_slab', ()),
]


def moved(B, J, n, maker, inner, by):
    """an element is moved by its builder, or (by = 'storey') one product by
    the storey's builder after the element is finished"""
    hist = (maker,) + inner
    sc = Scenario(B, J, n, 'IfcStoreyBuilder', True)
    prep = sc.plan(hist + ('transform',), False) if by != 'storey' else sc.plan(hist, False)
    st = ('adt', B.F.find_adt('IfcStoreyBuilder'), ())
    tp = ('adt', B.F.find_adt('TransformParameter'), ())
    ids, holes = [], {}
    for m, p in prep:
        v = None
        if m != 'transform':
            v = sc.call(m, p)
            ids.append(own_id(J, sc.stack[-1], 'Wall' if 'wall' in maker else 'Slab') if m == maker else v)
        else:
            par = p[2][0]
            sc.call(m, p)
    M0 = Model(B, J, sc.s.model())
    then = M0.at
    el = M0.key(ids[0])
    # place of every product within the element
    prods = {el: geo.vec(J, ZERO)}
    todo = list(ids[1:])
    for x in todo:
        e = M0.at[M0.key(x)]
        if kind(e) == 'Window':
            # the opening the window was put in: what it is placed in
            pl = norm(J, M0.field(M0.follow(e, 'object_placement'), 'placement_rel_to'))
            o = [k for k, v in M0.items if kind(v) == 'OpeningElement' and
                 M0.key(M0.field(v, 'object_placement')) == M0.key(pl)]
            prods[o[0]] = place(J, M0, M0.at[o[0]])
            prods[M0.key(x)] = [geo.padd(a, b) for a, b in zip(prods[o[0]], place(J, M0, e))]
        else:
            prods[M0.key(x)] = place(J, M0, e)
    if by == 'storey':
        sc.end()
        which = {'el': el}.get(inner and '', M0.key(ids[-1]))
        par = J.sym('par', tp)
        fn, sub = J.F.fns[J.find_method(st, 'transform')[0]], {}
        x = ids[-1]
        sub = {g: x.targs[0] for g in fn['gen'] if not g.startswith("'")}
        J.run_fn(fn, sub, [Ref(sc.stack[-1], 1), x, tmp(par)])
        prods = {M0.key(x): geo.vec(J, ZERO)}
    M = sc.finish()
    if M is None:
        return ['the text built is not that of the model']
    t = geo.vec(J, J.getfield(par, 'translation'))
    R = [geo.unit(J, J.getfield(par, '%s_rotation' % a)) for a in 'xyz']
    U = [unitatoms(w) for w in R]
    out, shapes = [], set()
    for x, p in prods.items():
        v = M.at[x]
        k = kind(v)
        sh = M0.key(M0.field(M0.at[x], 'representation'))
        shapes.add(sh)
        if M.key(M.field(v, 'representation')) != sh:
            out.append('%s: it has another shape entry' % k)
            continue
        r0 = [M.key(i) for i in J.items(norm(J, M0.field(M0.at[sh], 'representations')))]
        r1 = [M.key(i) for i in J.items(norm(J, M.field(M.at[sh], 'representations')))]
        if len(r0) != len(r1):
            out.append('%s: %d representations become %d' % (k, len(r0), len(r1)))
            continue
        for a, b in zip(r0, r1):
            o, w = M.at[a], M.at.get(b)
            if kind(w) != 'ShapeRepresentation' or b in then:
                out.append('%s: it is not moved' % k)
                continue
            for f in ('representation_identifier', 'context_of_items'):
                if not J.same(norm(J, M.field(o, f)), norm(J, M.field(w, f))):
                    out.append('%s: %s is not kept' % (k, f))
            if norm(J, M.field(w, 'representation_type')).var != 'MappedRepresentation':
                out.append('%s: it is not a mapped representation' % k)
            its = [M.at.get(M.key(i)) for i in J.items(norm(J, M.field(w, 'items')))]
            if [kind(i) for i in its] != ['MappedItem']:
                out.append('%s: its items are %s' % (k, [kind(i) for i in its]))
                continue
            mp, op = M.follow(its[0], 'source'), M.follow(its[0], 'target')
            if kind(mp) != 'RepresentationMap' or M.key(M.field(mp, 'representation')) != a:
                out.append('%s: another representation is mapped' % k)
                continue
            ax = M.follow(mp, 'origin')
            for d in ('local_x', 'local_z'):
                if norm(J, M.field(ax, d)) != 'Omitted':
                    out.append('%s: turned twice' % k)
            og = geo.vec(J, M.follow(ax, 'location'))
            if not (kind(op) or '').startswith('CartesianTransformationOperator3D'):
                out.append('%s: it is mapped by a %s' % (k, kind(op)))
                continue
            for f in ('scale', 'scale_y', 'scale_z')[:3 if kind(op).endswith('nonUniform') else 1]:
                s = norm(J, M.field(op, f))
                if s != 'Omitted' and geo.poly(J, s) != geo.const(1):
                    out.append('%s: it is scaled' % k)
            axes = [geo.unit(J, M.follow(op, 'axis_' + a)) for a in 'xyz']
            if axes != R:
                out.append('%s: turned to %s' % (k, [geo.vshow(x) for x in axes]))
                continue
            lo = geo.vec(J, M.follow(op, 'local_origin'))
            # a point s of the product is seen at  p + (lo + R(og + s)),  wanted  t + R(p + s)
            for c in range(3):
                have, want = geo.padd(lo[c], p[c]), t[c]
                for i in range(3):
                    have = geo.padd(have, geo.pmul(og[i], U[i][c]))
                    want = geo.padd(want, geo.pmul(p[i], U[i][c]))
                if have != want:
                    out.append('%s: moved by %s instead of %s' % (k, geo.key(have), geo.key(want)))
                    break
    for x, e in then.items():
        if x not in shapes and (x not in M.at or not same_entry(J, M.at[x], e)):
            out.append('the entry %s is changed or lost' % M.key(x) if not isinstance(x, str) else 'an entry %s is changed or lost' % kind(e))
    return out + verified(B, J, M, {M.key(i) for i, _ in sc.s.ents})


def unitatoms(w):
    """coordinates of the direction w (normalised) as symbols"""
    n = ','.join(map(geo.key, w))
    return [{('unit(%s).%s' % (n, a),): geo.Fr(1)} for a in 'xyz']


def place(J, M, e):
    ax = M.follow(M.follow(e, 'object_placement'), 'relative_placement')
    return geo.vec(J, M.follow(ax, 'location'))


# ---- what a transformation parameter stores ------------------------------
def parameter(B, J, m):
    F = B.F
    tp = ('adt', F.find_adt('TransformParameter'), ())
    me = J.sym('me', tp)
    fn = F.fns[J.find_method(tp, m)[0]]
    x = J.sym('given', fn['ins'][1])
    r = J.deref(J.run_fn(fn, {}, [me, x]))
    out = []
    for f, _ in F.fields(tp):
        got, old = geo.vec(J, J.getfield(r, f)), geo.vec(J, J.getfield(me, f))
        if m == 'rotation' and f != 'translation':
            axis = V(*[1.0 if f[0] == b else 0.0 for b in geo.AX])
            turned = J.binop('Mul', x, axis, J.type_of(J.getfield(me, f)), None)
            zero = J.truth(J.equal(turned, ZERO))
            if got != (old if zero else geo.vec(J, turned)):
                out.append('%s is %s' % (f, geo.vshow(got)))
            continue
        if f == m:
            zero = m != 'translation' and J.truth(J.equal(x, ZERO))
            if got != (old if zero else geo.vec(J, x)):
                out.append('%s is %s' % (f, geo.vshow(got)))
        elif got != old:
            out.append('%s is changed' % f)
    return out


def more_rel(B):
    jobs = [('project', 'IfcProjectBuilder::new', 'IfcProjectBuilder::new', lambda J: project(B, J))]
    for host in ('wall', 'storey'):
        for n in (0, 1, 2):
            jobs.append(('property set', 'add_properties of a ' + host, 'add_properties of a %s with %d values' % (host, n),
                         lambda J, n=n, host=host: properties(B, J, n, host)))
    return jobs


def more_shape(B):
    jobs = []
    for maker, inner in MOVES:
        for by in ('builder', 'storey'):
            key = '%s moved by the %s' % ('/'.join((maker,) + inner), by)
            for n in (0, 1):
                jobs.append(('move', key, '%s, %d others' % (key, n),
                             lambda J, n=n, by=by, maker=maker, inner=inner: moved(B, J, n, maker, inner, by)))
    for m in ('translation', 'rotation', 'x_rotation', 'y_rotation', 'z_rotation'):
        jobs.append(('parameter', 'TransformParameter::' + m, 'TransformParameter::' + m, lambda J, m=m: parameter(B, J, m)))
    return jobs
