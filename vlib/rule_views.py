"""P08: the views of an entry (mappings, shapes, items, structures) show the entry's own data, references resolved."""
import itertools
import rule_text
from interp import *
from rule_store import callm
from rule_extract import Scene

MT = '::traits::ifc_mapped_type::IfcMappedType'
IT = '::traits::ifc_type::IfcType'
ST = '::traits::sub_types::Structure'
TT = '::traits::sub_types::TransformableType'
# where an attribute may be absent or derived; references as labels
OPTS = ('ref', None, '*')


class Own:
    """the value of an attribute of entry `lab`"""

    def __init__(self, lab, *path):
        self.lab, self.path = lab, path

    def get(self, s):
        v = s.ents[self.lab]
        for p in self.path:
            v = s.J.deref(v)
            if isinstance(v, Sym) and v.ty[0] == 'adt':
                v = s.J.expand(v)
            v = s.J.getfield(v, p)
        return s.J.deref(v)

    def __repr__(self):
        return '%s.%s' % (self.lab, '.'.join(self.path))


class Var:
    def __init__(self, name, x):
        self.name, self.x = name, x


class Part(Own):
    def __init__(self, sym, *path):
        self.sym, self.path = sym, path

    def get(self, s):
        v = s.J.expand(self.sym)
        for p in self.path:
            v = s.J.deref(s.J.getfield(v, p))
        return v

    def __repr__(self):
        return self.sym.name


ANY = object()


def fits(s, got, want, at='result'):
    J = s.J
    got = J.deref(got)
    if want is ANY:
        return None
    if want is None or isinstance(want, tuple):
        var = got.var if isinstance(got, Obj) else J.variant(got)
        if want is None:
            return None if var == 'None' else '%s is %s instead of absent' % (at, J.show(got))
        if var != 'Some':
            return '%s is absent' % at
        return fits(s, J.getfield(got, '0'), want[0], at)
    if isinstance(want, Var):
        var = got.var if isinstance(got, Obj) else J.variant(got)
        if var != want.name:
            return '%s is %s instead of %s' % (at, var, want.name)
        return fits(s, J.getfield(got, '0'), want.x, at)
    if isinstance(want, str):
        r = s.label(got)
        return None if r == want else '%s shows %s instead of %s' % (at, r, want)
    if isinstance(want, Own):
        w = want.get(s)
        return None if J.same(got, w) else '%s is %s instead of %s' % (at, J.show(got), want)
    if isinstance(want, list):
        its = [J.deref(x) for x in J.natives_items(got)]
        if len(its) != len(want):
            return '%s has %d items instead of %d' % (at, len(its), len(want))
        for i, (a, b) in enumerate(zip(its, want)):
            r = fits(s, a, b, '%s[%d]' % (at, i))
            if r:
                return r
        return None
    for n, w in want.items():
        r = fits(s, J.getfield(got, n), w, '%s.%s' % (at, n))
        if r:
            return r
    if isinstance(got, Obj):
        for n in got.f:
            if n not in want:
                raise Undecided('%s.%s is not in the table' % (at, n))
    return None


def p08(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    by = {F.show(t): t for t in rule_text.entity_types(F)}
    IFC = ('adt', F.find_adt('IFC'), ())

    def trait(J, tr, n, ty, args, ret=None):
        return J.call_trait({'d': tr + '::' + n, 'a': [ty], 'n': n, 'tr': tr}, args, ret, '')

    def adt(name):
        try:
            return ('adt', F.find_adt(name), ())
        except Exception:
            ctx.anchor_missing('type %s' % name)
            return None

    def case(kind, key, entries, call, want, fkey=None):
        def run(J):
            s = Scene(J, F, by, entries)
            r = call(J, s, Ref(Cell(s.ifc), 0))
            return fits(s, r, want)
        n = 0
        for k, r in I.paths(run):
            n += 1
            if k == 'undecided':
                ctx.undecided(kind, key, r)
            elif k == 'panic':
                ctx.bad(kind, fkey or kind, '%s: panics: %s' % (key, r))
            elif r is None:
                ctx.good(kind, key)
            else:
                ctx.bad(kind, fkey or kind, '%s: %s' % (key, r))
        ctx.count('paths', n)
        if not n:
            ctx.bad(kind, kind, 'no path analysed')

    def mapping(ty):
        def go(J, s, ifc):
            return trait(J, MT, 'mappings', ty, [Ref(Cell(s.ents['t']), 0), ifc])
        return go

    def opt(x, w):
        return None if x in (None, '*') else (w,)

    def mixes(es):
        yield es
        yield list(reversed(es))

    def views(kind, ents, want, key, ty=None, fkey=None):
        for es in mixes(ents):
            case(kind, key, es, mapping(ty or by[kind]), want, fkey)

    missing = [n for n in ('Axis2D', 'Axis3D', 'ExtrudedAreaSolid', 'RectangleProfileDef', 'ArbitraryClosedProfileDef', 'MappedItem',
                           'CartesianTransformationOperator3D', 'CartesianTransformationOperator3DnonUniform', 'PolyLine', 'PointList2D',
                           'PointList3D', 'IndexedPolyCurve', 'ShapeRepresentation', 'ProductDefinitionShape', 'Point2D', 'Point3D',
                           'Direction2D', 'Direction3D', 'RepresentationMap', 'Dummy') if n not in by]
    if missing:
        for n in missing:
            ctx.anchor_missing('entity %s' % n)
        return ''

    # placements
    pts = [('p', 'Point3D', {}), ('x', 'Direction3D', {}), ('z', 'Direction3D', {}), ('o', 'Point3D', {})]
    for x, z in itertools.product(('x', None, '*'), ('z', None, '*')):
        views('Axis3D', pts + [('t', 'Axis3D', {'location': 'p', 'local_x': x, 'local_z': z})],
              {'location': 'p', 'local_x': opt(x, 'x'), 'local_z': opt(z, 'z')}, 'x %s, z %s' % (x, z))
    for x in ('x', None, '*'):
        views('Axis2D', [('p', 'Point2D', {}), ('x', 'Direction2D', {}), ('t', 'Axis2D', {'location': 'p', 'local_x': x})],
              {'location': 'p', 'local_x': opt(x, 'x')}, 'x %s' % x)

    # transformations
    def base(o):
        a, b, c, d, sc = o
        slots = {'axis_x': a, 'axis_y': b, 'axis_z': c, 'local_origin': d}
        want = {'axis_x': opt(a, 'ax'), 'axis_y': opt(b, 'ay'), 'axis_z': opt(c, 'az'), 'translation': opt(d, 'or')}
        if sc is None or sc == '*':
            slots['scale'] = sc
            want['scale'] = None
        else:
            want['scale'] = (Own('t', 'base', 'scale', '0', '0'),)
            slots['scale'] = 'given'
        return slots, want

    def choices(n):
        return (n, ('in', n), None, '*')
    full = list(itertools.product(choices('ax'), choices('ay'), choices('az'), choices('or'), (1, None, '*')))
    quick = [f for i, f in enumerate(full) if ctx.tier != 'quick' or i % 7 == 0 or sum(1 for x in f[:4] if x in (None, '*')) == 3]
    tents = lambda f: [(n, k, {}) for n, k, v in (('ax', 'Direction3D', f[0]), ('ay', 'Direction3D', f[1]), ('az', 'Direction3D', f[2]),
                                                 ('or', 'Point3D', f[3])) if v == n]
    extra = ('scale_y', 'scale_z')
    for i, f in enumerate(quick):
        slots, want = base(f)
        kd = 'CartesianTransformationOperator3D'
        views(kd, tents(f) + [('t', kd, slots)], {'base': want}, str(f))
        kn = kd + 'nonUniform'
        own = {e: (None, '*', 1)[(i + j) % 3] for j, e in enumerate(extra)}
        given = {**slots, **{e: ('given' if v == 1 else v) for e, v in own.items()}}
        views(kn, tents(f) + [('t', kn, given)],
              {'base': want, **{e: ((Own('t', e, '0', '0'),) if v == 1 else None) for e, v in own.items()}}, str(f))

    # profiles
    for pos, ax in (('a', 'Axis2D'), ('a', 'Axis3D'), (None, 'Axis2D'), ('*', 'Axis3D')):
        pk, dk = ('Point2D', 'Direction2D') if ax == 'Axis2D' else ('Point3D', 'Direction3D')
        over = {'location': 'p', 'local_x': 'x'}
        w = {'location': 'p', 'local_x': ('x',)}
        if ax == 'Axis3D':
            over['local_z'], w['local_z'] = None, None
        views('RectangleProfileDef', [('p', pk, {}), ('x', dk, {}), ('a', ax, over), ('t', 'RectangleProfileDef', {'position': pos})],
              {'axis': opt(pos, Var('D2' if ax == 'Axis2D' else 'D3', w)), 'x_dim': Own('t', 'x_dim', '0'), 'y_dim': Own('t', 'y_dim', '0')},
              'position %s as %s' % (pos, ax))

    def outline(c):
        """entries of a curve c and the points its view shows"""
        kind, d, n = c
        if kind == 'line':
            ids = ['p%d' % i for i in range(n)]
            es = [(i, 'Point%dD' % d, {}) for i in ids]
            if n > 2:
                ids = [ids[1], ids[0]] + ids[2:] + [ids[1]]
            return es + [('c', 'PolyLine', {'points': ids})], Var('D%d' % d, [Own(i, '0', '0') for i in ids])
        cs = [Sym('c%d' % i, ('adt', F.find_adt('IfcDVec%d' % d), ())) for i in range(n)]
        es = [('l', 'PointList%dD' % d, {'coord_list': cs}), ('c', 'IndexedPolyCurve', {'points': 'l'})]
        return es, Var('D%d' % d, [Part(x, '0') for x in cs])

    def points(J, s, ifc):
        return callm(J, by['PolyLine'], 'points', [], [Ref(Cell(s.ents['c']), 0), ifc])

    for c in [(k, d, n) for k in ('line', 'list') for d in (2, 3) for n in ((1, 2, 3) if k == 'line' else (0, 1, 2))]:
        es, w = outline(c)
        key = '%s of %d %dD points' % (c[0], c[2], c[1])
        views('ArbitraryClosedProfileDef', es + [('t', 'ArbitraryClosedProfileDef', {'outer_curve': 'c'})],
              {'profile_type': Own('t', 'profile_type'), 'points': w}, key)
        if c[0] == 'line':
            for e2 in mixes(es):
                case('PolyLine', key, e2, points, w)
    for key, ids in (('no points', []), ('points of two and three dimensions', ['p0', 'q0'])):
        case('PolyLine', key, [('p0', 'Point2D', {}), ('q0', 'Point3D', {}), ('c', 'PolyLine', {'points': ids})],
             lambda J, s, ifc: points(J, s, ifc) and UNIT, ANY, 'PolyLine::points with ' + key)

    # solids
    for pos in ('a', None, '*'):
        for prof in ('RectangleProfileDef', 'ArbitraryClosedProfileDef'):
            es = [('o', 'Point3D', {}), ('dz', 'Direction3D', {}), ('d', 'Direction3D', {}), ('a', 'Axis3D', {'location': 'o', 'local_z': 'dz',
                                                                                                      'local_x': None})]
            if prof[0] == 'R':
                es += [('s', prof, {'position': None})]
                w = Var('Rectangle', {'axis': None, 'x_dim': Own('s', 'x_dim', '0'), 'y_dim': Own('s', 'y_dim', '0')})
            else:
                ce, cw = outline(('line', 2, 2))
                es += ce + [('s', prof, {'outer_curve': 'c'})]
                w = Var('Arbitrary', {'profile_type': Own('s', 'profile_type'), 'points': cw})
            es += [('t', 'ExtrudedAreaSolid', {'swept_area': 's', 'position': pos, 'extruded_direction': 'd'})]
            views('ExtrudedAreaSolid', es, {'profile_def': w, 'position': opt(pos, {'location': 'o', 'local_z': ('dz',), 'local_x': None}),
                                            'extruded_direction': 'd', 'depth': Own('t', 'depth', '0')}, '%s, position %s' % (prof, pos))

    # mapped items
    axis = {'location': 'o', 'local_z': 'dz', 'local_x': None}
    for num in itertools.product((True, False), repeat=3):
        for tgt in ('CartesianTransformationOperator3D', 'CartesianTransformationOperator3DnonUniform'):
            slots, want = base((None, 'ay', None, 'or', None))
            org = 'a' if num[1] else ('in', 'a', axis)
            rep = 'r' if num[2] else ('in', 'r')
            maps = {'origin': org, 'representation': rep}
            es = [('ay', 'Direction3D', {}), ('or', 'Point3D', {}), ('o', 'Point3D', {}), ('dz', 'Direction3D', {})]
            es += [('a', 'Axis3D', axis)] if num[1] else []
            es += [('r', 'ShapeRepresentation', {})] if num[2] else []
            es += [('m', 'RepresentationMap', maps)] if num[0] else []
            non = tgt.endswith('Uniform')
            es += [('k', tgt, {**slots, **({e: None for e in extra} if non else {})}),
                   ('t', 'MappedItem', {'target': 'k', 'source': 'm' if num[0] else ('in', 'm', maps)})]
            views('MappedItem', es,
                  {'0': {'0': {'location': 'o', 'local_z': ('dz',), 'local_x': None}, '1': 'r'},
                   '1': Var('NonUniform', {'base': want, 'scale_y': None, 'scale_z': None}) if non else Var('Uniform', {'base': want})},
                  '%s, by number %s' % (tgt, num))

    # representations and their items
    items = ['i', 'm', 'l', 'd']
    es = [('i', 'ExtrudedAreaSolid', {}), ('m', 'MappedItem', {}), ('l', 'PolyLine', {}), ('d', 'Dummy', {}), ('j', 'ExtrudedAreaSolid', {})]
    var = {'i': 'ExtrudedAreaSolid', 'j': 'ExtrudedAreaSolid', 'm': 'MappedItem', 'l': 'Other', 'd': 'Dummy'}
    for l in [list(x) for n in (0, 1, 2, 3) for x in itertools.product('ijmld', repeat=n)]:
        if len(l) == 3 and (ctx.tier == 'quick' and l[0] != 'j'):
            continue
        e2 = [x for x in es if x[0] in l] + [('t', 'ShapeRepresentation', {'items': l})]
        T = by['ShapeRepresentation']
        case('items', ''.join(l), e2, lambda J, s, ifc: callm(J, T, 'items', [], [Ref(Cell(s.ents['t']), 0), ifc]), [Var(var[i], i) for i in l])
        for k in ('ExtrudedAreaSolid', 'MappedItem', 'PolyLine'):
            case('items_of', ''.join(l), e2, lambda J, s, ifc: callm(J, T, 'items_of', [by[k]], [Ref(Cell(s.ents['t']), 0), ifc]),
                 [i for i in l if dict((x[0], x[1]) for x in es)[i] == k])
    for k in ('GeometricRepresentationContext', 'GeometricRepresentationSubContext'):
        e2 = [('g', 'GeometricRepresentationContext', {}), ('h', 'GeometricRepresentationContext', {}),
              ('u', 'GeometricRepresentationSubContext', {'parent_context': 'g'}),
              ('t', 'ShapeRepresentation', {'context_of_items': 'u' if 'Sub' in k else 'g'})]
        for e3 in mixes(e2):
            case('parent_context', k, e3, lambda J, s, ifc: callm(J, by['ShapeRepresentation'], 'parent_context', [], [Ref(Cell(s.ents['t']), 0), ifc]), 'g')

    # products
    PROD = adt('Product')
    kinds = [(n, t) for n, t in sorted(by.items()) if inner_product(F, t, PROD)]
    if len(kinds) < 10:
        ctx.anchor_missing('product kinds')
    for n, t in kinds:
        for l in ([], ['r'], ['q', 'r']):
            for rep in ('g', None):
                e2 = [('r', 'ShapeRepresentation', {}), ('q', 'ShapeRepresentation', {}),
                      ('g', 'ProductDefinitionShape', {'representations': l}), ('t', n, {'representation': rep})]
                case('shapes', '%s %s' % (n, l), e2,
                     lambda J, s, ifc: callm(J, PROD, 'shapes', [], [Ref(Cell(find_product(F, J, s.ents['t'], PROD)), 0), ifc]), l if rep else [])
        if F.implements(TT, [t]):
            for rep in ('g', None, '*'):
                case('shape', '%s %s' % (n, rep), [('g', 'ProductDefinitionShape', {}), ('t', n, {'representation': rep})],
                     lambda J, s, ifc: trait(J, TT, 'shape', t, [Ref(Cell(s.ents['t']), 0)]), opt(rep, 'g'))
    TYPED = {'Wall', 'Slab', 'Roof', 'Window', 'Door', 'ShadingDevice'}
    STRUCT = TYPED | {'Site', 'Building', 'Storey', 'Space'}
    for n, t in sorted(by.items()):
        e2 = [('t', n, {})]
        case('to_structure', n, e2, lambda J, s, ifc: trait(J, IT, 'to_structure', t, [Ref(Cell(s.ents['t']), 0)]),
             ('t',) if n in STRUCT else None)
        if F.implements(ST, [t]):
            case('structure_type', n, e2, lambda J, s, ifc: trait(J, ST, 'structure_type', t, [Ref(Cell(s.ents['t']), 0)]),
                 (Var(n, 't'),) if n in TYPED else None)

    # attributes of the base records, and of the views
    for im in F.impls_by_trait.get('std::ops::Deref', []):
        t = im['self']
        if t[0] != 'adt' or t[1] not in F.adts or t[2]:
            continue
        target = F.fns[im['imap']['deref'][0]]['out']
        target = target[1] if target[0] == 'ref' else target

        def run(J):
            v = J.expand(J.sym('t', t))
            r = J.run_fn(F.fns[im['imap']['deref'][0]], {}, [Ref(Cell(v), 0)])
            own = [f for f in v.f if J.same(J.deref(r), J.deref(v.f[f]))]
            return None if own else 'it shows %s, which is none of its attributes' % J.show(r)
        for k, r in I.paths(run):
            if k == 'undecided':
                ctx.undecided('base record', F.show(t), r)
            elif r is None:
                ctx.good('base record', F.show(t))
            else:
                ctx.bad('base record', F.show(t), '%s: %s' % (F.show(t), r))

    for k, n in (('Axis3D', 18), ('Axis2D', 6), ('CartesianTransformationOperator3D', 50), ('RectangleProfileDef', 8), ('PolyLine', 12),
                 ('ArbitraryClosedProfileDef', 24), ('ExtrudedAreaSolid', 12), ('MappedItem', 32), ('items', 40), ('items_of', 120),
                 ('shapes', 60), ('shape', 15), ('to_structure', 70), ('structure_type', 9)):
        ctx.floor(k, n)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['references name entries of the kinds the library knows (a view of an entry whose reference names an entry kept '
                        'verbatim panics, see DESIGN.md)', 'lists of up to three items stand for any length']
    return ('Abstract interpretation of every view of an entry (mappings of geometry, points, items, shapes, structures, base records) on models '
            'with symbolic numbers and values; each part of the view must be the attribute, or the entry the attribute refers to, named in a table.')


def inner_product(F, t, PROD):
    for n, ft in F.fields(t) or []:
        if ft == PROD or (ft[0] == 'adt' and ft[1] in F.adts and not ft[2] and ft[1].split('::')[-1] in BASES and inner_product(F, ft, PROD)):
            return True
    return False


BASES = ('Element', 'SpatialElement', 'SpatialStructureElement', 'Product')


def find_product(F, J, v, PROD):
    v = J.deref(v)
    if isinstance(v, Sym):
        v = J.expand(v)
    if v.adt == PROD[1]:
        return v
    for n, x in v.f.items():
        x = J.deref(x)
        t = x.ty[1] if isinstance(x, Sym) and x.ty[0] == 'adt' else x.adt if isinstance(x, Obj) else ''
        if t.split('::')[-1] in BASES:
            return find_product(F, J, x, PROD)
    raise Undecided('no product record')
