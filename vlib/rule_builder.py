"""P10: what is created with the project builders is written, related and placed."""
from fractions import Fraction as Fr
import geo
import refs
from interp import *
from rule_build import Build, Check, World, norm, short, pname
from rule_store import IFCTYPE, USIZE, same_entry
from rule_valid import VER

DROP = 'std::ops::Drop'
SPATIAL = ('Site', 'Building', 'Storey', 'Space')


class Stage(World):
    """builders of one model with n things of every kind registered"""

    def __init__(self, B, J, n):
        self.B, self.n = B, n
        World.__init__(self, J, 0, B.IFC)
        self.project = None
        self.by = {}
        self.place = False
        self.openings = False       # openings are looked at: where are they?

    # ---- model -------------------------------------------------------
    def entry(self, t, v=None):
        """number of an additional entry of type t"""
        J = self.J
        k = 'k%d' % len(self.names)
        self.names.append(k)
        J.data['order'].append(k)
        i = self.id(Sym(k, USIZE))
        if v is None:
            v = Sym('e' + k[1:], ('dyn', IFCTYPE))
            J.refine[v.name] = t
        self.ents.append((i, v))
        self.by.setdefault(t, []).append(i)
        return i

    def entity(self, t, name):
        """entry of type t with everything that is looked up behind it"""
        J = self.J
        return self.entry(t, self.inst(t, name, True))

    def typed(self, t, i):
        return Obj(self.B.TID, 'TypedId', {'id': i, 't': Obj('std::marker::PhantomData', 'PhantomData', {}, ())}, (t,))

    def inst(self, t, name, deep=False, field=''):
        """a value of type t: references name entries, collections have n items"""
        J, B, F = self.J, self.B, self.B.F
        k = t[0]
        n = short(t)
        if k == 'ref':
            if n is None and t[1] == B.PB:
                return Ref(self.root(), 1)
            return Ref(Cell(self.inst(t[1], name, deep)), t[2])
        if t == B.IFC:
            return self.c.get()
        if k == 'tuple':
            return Tup(self.inst(u, '%s.%d' % (name, i), deep) for i, u in enumerate(t[1]))
        if k != 'adt':
            return J.sym(name, t)
        if n == 'TypedId':
            u = t[2][0]
            if deep or F.show(u) in SPATIAL and field != 'item':
                return self.typed(u, self.entity(u, name))
            if F.show(u) == 'OpeningElement' and self.openings:
                self.place = True
                e = self.entity(u, name)
                self.place = False
                return self.typed(u, e)
            return self.typed(u, self.entry(u))
        if n == 'Id' and t[1].startswith('::'):
            if field == 'object_placement':
                lp = B.type('LocalPlacement')
                return self.entity(lp, name) if self.place else self.entry(lp)
            return self.entity(B.type('Axis3D'), name) if field == 'relative_placement' else self.entry(B.type('Dummy'))
        if n == 'Vec' and not B.hasref(t[2][0]):
            return J.sym(name, t)
        if n in ('HashMap', 'BTreeMap'):
            out = []
            for i in range(self.n):
                key = self.inst(t[2][0], '%s.k%d' % (name, i), False, 'item')
                val = self.inst(t[2][1], '%s.v%d' % (name, i), False, 'item')
                if B.is_entity(t[2][1]):
                    # a pending relation of the thing it is filed under
                    fs = [f for f, u in F.fields(t[2][1]) if u == ('adt', self.ID, ())]
                    val = J.setfield(val, fs[0], J.getfield(key, 'id'))
                out.append((key, val))
            return Map(n, out)
        if n in ('HashSet', 'BTreeSet'):
            return Map(n, [(self.inst(t[2][0], '%s.%d' % (name, i), False, 'item'), UNIT) for i in range(self.n)])
        if n == 'Vec':
            its = [self.inst(t[2][0], '%s.%d' % (name, i), deep, 'item') for i in range(self.n)]
            if its and short(t[2][0]) == 'TypedId' and short(t[2][0][2][0]) == 'MaterialLayer':
                its.append(its[0])      # a list of layers may name one twice
            return Seq(its)
        if n in ('OptionalParameter', 'Option'):
            if B.hasref(t):
                J.refine[name] = ('Custom' if n == 'OptionalParameter' else 'Some') if field == 'object_placement' else (
                    'Omitted' if n == 'OptionalParameter' else 'None')
                v = J.expand(Sym(name, t))
                return Obj(v.adt, v.var, {f: self.inst(u, '%s@%s.%s' % (name, v.var, f), deep, field)
                                          for f, u in F.fields(t, v.var)} if t[1] in F.adts else {}, t[2])
            return J.sym(name, t)
        if n == 'IdOr':
            J.refine[name] = 'Id'
            return Obj(t[1], 'Id', {'0': self.inst(('adt', B.TID, t[2]), name, deep, field)}, t[2])
        if t[1].startswith('::') and F.adts[t[1]]['kind'] == 'Struct' and B.hasany(t):
            return Obj(t[1], n, {f: self.inst(u, '%s.%s' % (name, f), deep, f) for f, u in F.fields(t)}, t[2])
        return J.sym(name, t)

    def root(self):
        if self.project is None:
            B = self.B
            self.project = Cell(None)
            self.project.set(Obj(B.PB[1], short(B.PB), {f: self.inst(u, 'p.' + f) for f, u in B.F.fields(B.PB)}))
            self.entry(B.type('GeometricRepresentationSubContext'))
            self.store()
        return self.project

    def store(self):
        """put the entries made so far into the model"""
        J = self.J
        p = self.project.get()
        ifc = J.setfield(p.f[self.B.ifcf], 'data', Obj(self.DM[1], 'DataMap', {'0': Map('BTreeMap', list(self.ents))}))
        self.project.set(J.setfield(p, self.B.ifcf, ifc))

    def model(self):
        return self.J.getfield(self.project.get(), self.B.ifcf)


class BB(Build):
    def __init__(self, F):
        Build.__init__(self, F)
        self.TID = F.find_adt('TypedId')
        self.PB = ('adt', F.find_adt('IfcProjectBuilder'), ())
        self.ifcf = next(f for f, t in F.fields(self.PB) if t == self.IFC)
        self._hr = {}

    def type(self, n):
        return next(t for t in self.ents if self.F.show(t) == n)

    def is_entity(self, t):
        return t in self.ents

    def hasref(self, t):
        return refs.has_ref(self.F, t)

    def hasany(self, t, depth=0):
        """mentions references, collections or the model"""
        if t not in self._hr:
            self._hr[t] = False
            self._hr[t] = self._any(t)
        return self._hr[t]

    def _any(self, t):
        if t[0] == 'adt':
            if t == self.IFC or short(t) in ('TypedId', 'IdOr', 'HashMap', 'HashSet', 'Vec'):
                return True
            if t[1] == self.F.find_adt('Id'):
                return True
            if t[1] in self.F.adts:
                a = self.F.adts[t[1]]
                return any(self.hasany(u) for v, _ in a['vs'] for _, u in self.F.fields(t, v if a['kind'] == 'Enum' else None))
            return any(self.hasany(x) for x in t[2] if isinstance(x, tuple))
        if t[0] == 'tuple':
            return any(self.hasany(x) for x in t[1])
        if t[0] in ('ref', 'slice', 'array'):
            return self.hasany(t[1])
        return False

    def drop(self, J, cell):
        """run the Drop code of a builder"""
        t = J.type_of(cell.get())
        for im in self.F.impls_by_trait.get(DROP, []):
            b = {}
            if self.F.unify(im['self'], t, b) or im['self'][1] == t[1]:
                fn = self.F.fns[im['imap']['drop'][0]]
                J.run_fn(fn, b, [Ref(cell, 1)])
                return True
        return False


RELS = {'RelAggregates': ('relating_object', 'related_objects'),
        'RelContainedInSpatialStructure': ('relating_structure', 'related_elements'),
        'RelDefinesByType': ('relating_type', 'related_objects'),
        'RelAssociatesMaterial': ('relating_material', 'related_objects'),
        'RelVoidsElement': ('relating_building_element', 'related_opening_element'),
        'RelFillsElement': ('relating_opening_element', 'related_building_element'),
        'RelDefinesByProperties': ('relating_property_definition', 'related_objects'),
        'RelDeclares': ('relating_context', 'related_definitions')}
CONTAINED = {'Wall', 'Slab', 'Roof', 'Window', 'ShadingDevice', 'Door'}


class Model:
    """a finished model: entries and relation facts"""

    def __init__(self, B, J, ifc):
        self.B, self.J = B, J
        m = J.deref(J.getfield(J.getfield(ifc, 'data'), '0'))
        self.items = [(self.key(k), J.deref(v)) for k, v in m.items]
        self.at = dict(self.items)
        self.ifc = ifc
        self.rels = []
        for k, v in self.items:
            n = v.adt.split('::')[-1] if isinstance(v, Obj) else None
            if n in RELS:
                a, b = (self.field(v, f) for f in RELS[n])
                for x in self.many(b):
                    self.rels.append((n, self.key(a), self.key(x)))

    def key(self, i):
        return self.J.show(norm(self.J, i))

    def field(self, v, name):
        t = ('adt', v.adt, tuple(v.targs)) if isinstance(v, Obj) else v.ty
        ps = [p for p in self.B.attrs(t) if p[-1] == name]
        if not ps:
            raise Undecided('no attribute %s' % name)
        return self.B.at(self.J, v, min(ps, key=len))

    def many(self, v):
        v = norm(self.J, v)
        return v.items if isinstance(v, Seq) else [v]

    def follow(self, v, name):
        """entry an attribute refers to"""
        return self.at.get(self.key(self.field(v, name)))


def kind(v):
    return v.adt.split('::')[-1] if isinstance(v, Obj) else None


class Scenario:
    """builders, the calls made on them, and how they end"""

    def __init__(self, B, J, n, start, openings=False):
        self.B, self.J = B, J
        self.s = Stage(B, J, n)
        self.s.openings = openings
        self.s.root()
        self.stack = []                 # builder cells, innermost last
        self.all = []
        if start != 'IfcProjectBuilder':
            self.stack.append(Cell(self.s.inst(('adt', B.F.find_adt(start), ()), 'b')))
            self.all.append(self.stack[-1])
        self.s.store()

    def top(self):
        return self.stack[-1] if self.stack else self.s.project

    def method(self, m, on=None):
        J = self.J
        t = on or J.type_of(self.top().get())
        r = J.find_method(t, m)
        if r is None:
            raise Undecided('no method %s of %s' % (m, J.F.show(t)))
        return J.F.fns[r[0]], dict(r[1])

    def plan(self, ms, share):
        """the calls of a history with their arguments; typed ones name a new
        entry or (share) one that is there"""
        on, out = None, []
        for m in ms:
            p = self.prepare(m, share, on)
            out.append((m, p))
            t = p[0]['out']
            on = t if t[0] == 'adt' and t[1].startswith('::ifc_builder') else on
        self.s.store()
        return out

    def prepare(self, m, share, on):
        fn, sub = self.method(m, on)
        out = []
        for g in fn['gen']:
            if g not in sub and not g.startswith("'") and not g.startswith('impl '):
                sub[g] = self.B.type('Wall')
        for i, t in enumerate(fn['ins'][1:]):
            t = self.B.F.subst(t, sub)
            name = '%s.%d' % (m, i)
            if t[0] == 'param':
                s2, mk, _ = self.B.arg(fn, t, sub, name, 'id')
                sub.update(s2)
                u = self.B.F.subst(t, sub)
                if short(u) in ('Vec', 'IntoIter') and short(u[2][0]) == 'TypedId':
                    out.append(Seq([self.s.inst(u[2][0], name + 'a'), self.s.inst(u[2][0], name + 'b')]))
                else:
                    out.append(mk(self.J, self.s))
                continue
            here = self.s.by.get(t[2][0]) if short(t) == 'TypedId' else None
            if here and share:
                out.append(self.s.typed(t[2][0], self.upgrade(here[0], t[2][0], name)))
            elif self.B.hasany(t):
                out.append(self.s.inst(t, name, True))
            else:
                out.append(self.J.sym(name, t))
        return fn, sub, out

    def upgrade(self, i, t, name):
        """the entry under i, with everything that is looked up behind it"""
        s = self.s
        for j, (k, v) in enumerate(s.ents):
            if k is i and not isinstance(v, Obj):
                e = s.inst(t, name, True)
                s.ents[j] = (k, e)
        return i

    def call(self, m, prepared):
        fn, sub, args = prepared
        byref = fn['ins'][0][0] == 'ref'
        me = Ref(self.top(), 1) if byref else self.top().get()
        r = self.J.run_fn(fn, sub, [me] + list(args))
        if not byref:
            self.end()
        v = self.J.deref(r)
        if isinstance(v, Obj) and v.adt.startswith('::ifc_builder'):
            self.stack.append(Cell(v))
        return v

    def end(self):
        self.B.drop(self.J, self.stack.pop())

    def finish(self):
        """all builders end, the project is built: the model that is written"""
        J, B = self.J, self.B
        while self.stack:
            self.end()
        J.data['whole'] = B.IFC[1]
        fn, sub = self.method('build')
        r = J.deref(J.run_fn(fn, sub, [self.s.project.get()]))
        J.data['whole'] = None
        self.text = r
        if not isinstance(r, Txt) or len(r.ps) != 1 or not isinstance(r.ps[0], Hole):
            return None
        v = J.deref(r.ps[0].v)
        if not isinstance(v, Obj) or v.adt != B.IFC[1]:
            return None
        return Model(B, J, v)


# builder, calls before it, method, kind made, parent attribute of the builder, position
CREATE = [
    ('IfcProjectBuilder', (), 'new_site', 'Site'),
    ('IfcSiteBuilder', (), 'new_building', 'Building'),
    ('IfcBuildingBuilder', (), 'new_storey', 'Storey'),
] + [('IfcStoreyBuilder', (), m, k) for m, k in (
    ('vertical_wall', 'Wall'), ('vertical_arbitrary_wall', 'Wall'), ('arbitrary_wall', 'Wall'),
    ('horizontal_arbitrary_slab', 'Slab'), ('vertical_slab', 'Slab'), ('arbitrary_slab', 'Slab'),
    ('horizontal_arbitrary_roof', 'Roof'), ('vertical_shading_device', 'ShadingDevice'), ('space', 'Space'),
    ('wall_type', 'WallType'), ('slab_type', 'SlabType'), ('roof_type', 'RoofType'), ('window_type', 'WindowType'),
    ('space_type', 'SpaceType'), ('shading_device_type', 'ShadingDeviceType'),
    ('material', 'Material'), ('material_layer', 'MaterialLayer'), ('material_layer_set', 'MaterialLayerSet'),
    ('material_layer_set_usage', 'MaterialLayerSetUsage'), ('material_constituent', 'MaterialConstituent'),
    ('material_constituent_set', 'MaterialConstituentSet'))
] + [('IfcStoreyBuilder', ('vertical_wall',), m, k) for m, k in (
    ('vertical_opening', 'OpeningElement'), ('opening', 'OpeningElement'), ('window_with_opening', 'Window'))
] + [('IfcStoreyBuilder', ('arbitrary_slab',), m, k) for m, k in (
    ('rect_opening', 'OpeningElement'), ('horizontal_arbitrary_opening', 'OpeningElement'),
    ('arbitrary_opening', 'OpeningElement'), ('window_with_opening', 'Window'),
    ('horizontal_arbitrary_window_with_opening', 'Window'), ('arbitrary_window_with_opening', 'Window'))
]


def own_id(J, cell, t):
    """number of the thing a builder is for"""
    v = cell.get()
    for f, x in v.f.items():
        x = J.deref(x)
        if isinstance(x, Obj) and x.adt.endswith('::TypedId') and J.F.show(x.targs[0]) == t:
            return x
    return None


OWNER = {'IfcSiteBuilder': 'Site', 'IfcBuildingBuilder': 'Building', 'IfcStoreyBuilder': 'Storey', 'IfcWallBuilder': 'Wall',
         'IfcSlabBuilder': 'Slab', 'IfcProjectBuilder': 'Project'}


class Call:
    """what a creation method was given and what it made"""

    def __init__(self, B, J, sc, M, k, m, maker, prep, owner, then):
        self.B, self.J, self.sc, self.M, self.k, self.m, self.maker = B, J, sc, M, k, m, maker
        self.fn, _, self.args = prep[-1]
        self.prep = prep
        self.owner, self.then = owner, then
        self.opening = None

    def arg(self, name, call=-1):
        """argument, or field of an argument, called name"""
        fn, _, args = self.prep[call]
        for i, a in enumerate(args):
            if pname(fn, i + 1) == name:
                return a
        for t, a in zip(fn['ins'][1:], args):
            if t[0] == 'adt' and t[1].startswith('::ifc_builder') and name in dict(self.B.F.fields(t)):
                return self.J.getfield(a, name)
        return None

    def typed(self, t, call=-1):
        """argument of type t"""
        fn, _, args = self.prep[call]
        for u, a in zip(fn['ins'][1:], args):
            if self.B.F.show(u) == t:
                return a
        return None

    # ---- names, owners, placement -------------------------------------
    def attributes(self):
        J, M, v, k, B = self.J, self.M, self.v, self.k, self.B
        out = []
        ck = Check(B, J, None)

        def want(name, w, e=None):
            r = ck.holds(M.field(v if e is None else e, name), w)
            if r:
                out.append('%s: %s' % (name, r))
        t = J.type_of(v)
        names = {p[-1] for p in B.attrs(t)}
        strs = [a for u, a in zip(self.fn['ins'][1:], self.args) if u[0] == 'ref' and u[1] == ('prim', 'str')]
        if k == 'MaterialConstituent':
            self.material(strs[0], out)
            want('name', strs[1])
        elif k == 'MaterialLayer':
            self.material(strs[0], out)
            given = self.typed('MaterialLayer')
            for p in B.attrs(t):
                if p != ('material',) and not J.same(B.at(J, v, p), B.at(J, given, p)):
                    out.append('%s is not that of the layer given' % p[-1])
        elif k == 'Material':
            want('material', strs[0])
        elif k == 'MaterialLayerSet':
            want('material_layers', self.args[0])
        elif k == 'MaterialConstituentSet':
            want('material_constituents', self.args[0])
        elif k == 'MaterialLayerSetUsage':
            for f, a in zip(('spatial_element_structure', 'layer_set_direction', 'direction_sense',
                             'offset_from_reference_line'), self.args):
                want(f, a)
        else:
            want('name', strs[0])
            for u, a in zip(self.fn['ins'][1:], self.args):
                n = short(u) or ''
                if n == 'WindowPartitioningTypeEnum':
                    want('partitioning_type', a)
                elif n == k + 'Enum':
                    want('predefined_type', a)
        if 'owner_history' in names:
            want('owner_history', self.history())
        if 'object_placement' in names:
            out += self.placement(v, self.parent(), self.position())
            if self.opening and k == 'Window':
                o = M.at[self.opening]
                out += ['opening: ' + x for x in self.placement(o, self.owner, self.arg('placement') or ZERO)]
                r = ck.holds(M.field(o, 'owner_history'), self.history())
                if r:
                    out.append('owner history of the opening: %s' % r)
        return out

    def history(self):
        """owner history of the innermost builder that has one"""
        for c in self.sc.all + [self.sc.s.project]:
            x = c.get().f.get('owner_history') if isinstance(c.get(), Obj) else None
            if x is not None:
                return x
        raise Undecided('no owner history')

    def material(self, name, out):
        m = self.M.follow(self.v, 'material')
        if kind(m) != 'Material':
            out.append('its material is not written')
        elif self.M.key(self.M.field(self.v, 'material')) in self.then:
            out.append('its material is one from before')
        else:
            r = Check(self.B, self.J, None).holds(self.M.field(m, 'material'), name)
            if r:
                out.append('name of its material: %s' % r)

    def parent(self):
        """thing the new one is placed relative to"""
        if self.k == 'Site':
            return None
        return self.M.at[self.opening] if self.k == 'Window' and self.opening else self.owner

    def position(self):
        if self.k == 'Window':
            return ZERO
        if self.k == 'Storey':
            e = self.args[1]
            return Obj('bevy_math::DVec3', 'DVec3', {'x': 0.0, 'y': 0.0, 'z': e})
        p = self.typed('bevy_math::DVec3') or self.typed('DVec3')
        return p if p is not None else self.arg('placement') or ZERO

    def placement(self, v, parent, pos):
        J, M = self.J, self.M
        pl = M.follow(v, 'object_placement')
        if kind(pl) != 'LocalPlacement' or M.key(M.field(v, 'object_placement')) in self.then:
            return ['it has no placement of its own']
        out = []
        rel = norm(J, M.field(pl, 'placement_rel_to'))
        if parent is None:
            if rel != 'Omitted':
                out.append('it is placed relative to something')
        else:
            p = M.at[M.key(parent)] if not isinstance(parent, Obj) or parent.adt.endswith('::TypedId') else parent
            want = norm(J, M.field(p, 'object_placement'))
            if isinstance(rel, str) or M.key(rel) != M.key(want):
                out.append('it is not placed relative to the %s' % kind(p))
        ax = M.follow(pl, 'relative_placement')
        if kind(ax) != 'Axis3D':
            return out + ['its placement has no axes']
        for d in ('local_x', 'local_z'):
            if norm(J, M.field(ax, d)) != 'Omitted':
                out.append('its axes are turned')
        pt = M.follow(ax, 'location')
        if kind(pt) != 'Point3D':
            return out + ['its placement has no location']
        got, want = geo.vec(J, pt), geo.vec(J, pos)
        if got != want:
            out.append('it is placed at %s instead of %s' % (geo.vshow(got), geo.vshow(want)))
        return out

    # ---- shapes -------------------------------------------------------
    def thickness(self, call):
        """sum of the layer thicknesses of the material of an element"""
        J, B = self.J, self.B
        u = self.typed('TypedId<MaterialLayerSetUsage>', call)
        at = {self.M.key(i): e for i, e in self.sc.s.ents}
        usage = at[self.M.key(u)]
        ls = at[self.M.key(J.getfield(usage, 'spatial_element_structure'))]
        r = {}
        for x in J.items(norm(J, J.getfield(ls, 'material_layers'))):
            r = geo.padd(r, geo.poly(J, J.getfield(at[self.M.key(x)], 'layer_thickness')))
        return r

    def shapes(self):
        J, M, v = self.J, self.M, self.v
        S = SHAPES[(self.maker, self.m)] if (self.maker, self.m) in SHAPES else SHAPES[self.m]
        g = lambda n, c=-1: self.arg(n, c)
        want = S(self, g)
        out = self.shape(v, want)
        if self.k == 'Window' :
            fills = [a for r, a, b in M.rels if r == 'RelFillsElement' and b == self.new]
            o = M.at.get(fills[0]) if fills else None
            if kind(o) != 'OpeningElement':
                return out + ['there is no opening']
            hole = want.get('opening', want)
            out += ['opening: ' + x for x in self.shape(o, hole)]
        return out

    def shape(self, v, want):
        """v has the shape wanted as its body"""
        J, M = self.J, self.M
        ps = M.follow(v, 'representation')
        if kind(ps) != 'ProductDefinitionShape' or M.key(M.field(v, 'representation')) in self.then:
            return ['it has no shape of its own']
        reps = [M.at.get(M.key(x)) for x in J.items(norm(J, M.field(ps, 'representations')))]
        if any(kind(r) != 'ShapeRepresentation' for r in reps):
            return ['its representations are not written']
        ids = [(self.enum(r, 'representation_identifier'), self.enum(r, 'representation_type')) for r in reps]
        exp = [('Body', 'SweptSolid')] + ([('Axis', 'Curve2D')] if 'axis' in want else [])
        if ids != exp:
            return ['its representations are %s instead of %s' % (ids, exp)]
        out = []
        for r in reps:
            c = M.follow(r, 'context_of_items')
            if kind(c) != 'GeometricRepresentationSubContext' and J.F.show(J.type_of(c)) != 'GeometricRepresentationSubContext':
                out.append('a representation is not in the sub-context')
        its = [M.at.get(M.key(x)) for x in J.items(norm(J, M.field(reps[0], 'items')))]
        if len(its) != 1 or kind(its[0]) != 'ExtrudedAreaSolid':
            return out + ['its body is %s' % [kind(x) for x in its]]
        s = its[0]
        if norm(J, M.field(s, 'position')) != 'Omitted':
            out.append('its body is moved')
        d = geo.unit(J, M.follow(s, 'extruded_direction'))
        if d != want['dir']:
            out.append('it is extruded along %s instead of %s' % (geo.vshow(d), geo.vshow(want['dir'])))
        h = geo.poly(J, M.field(s, 'depth'))
        if h != want['depth']:
            out.append('it is extruded by %s instead of %s' % (geo.key(h), geo.key(want['depth'])))
        pr = M.follow(s, 'swept_area')
        if self.enum(pr, 'profile_type') != 'Area':
            out.append('its profile is no area')
        if 'rect' in want:
            if kind(pr) != 'RectangleProfileDef':
                return out + ['its profile is a %s' % kind(pr)]
            got = [geo.poly(J, M.field(pr, f)) for f in ('x_dim', 'y_dim')]
            if got != list(want['rect']):
                out.append('its profile is %s instead of %s' % (geo.vshow(got), geo.vshow(want['rect'])))
            half = [geo.pmul(x, geo.const(Fr(1, 2))) for x in want['rect']]
            ax = M.follow(pr, 'position')
            if kind(ax) != 'Axis2D' or norm(J, M.field(ax, 'local_x')) != 'Omitted':
                out.append('its profile is turned or has no position')
            else:
                c = geo.vec(J, M.follow(ax, 'location'))
                if c != half:
                    out.append('its profile is centred at %s instead of %s' % (geo.vshow(c), geo.vshow(half)))
        else:
            if kind(pr) != 'ArbitraryClosedProfileDef':
                return out + ['its profile is a %s' % kind(pr)]
            cu = M.follow(pr, 'outer_curve')
            pl = M.follow(cu, 'points') if kind(cu) == 'IndexedPolyCurve' else None
            if kind(pl) != 'PointList%dD' % len(want['points'][0]):
                return out + ['its outline is a %s of a %s' % (kind(cu), kind(pl))]
            got = [geo.vec(J, x) for x in J.items(norm(J, M.field(pl, 'coord_list')))]
            if got != want['points']:
                out.append('its outline is %s instead of %s' % ([geo.vshow(x) for x in got],
                                                                [geo.vshow(x) for x in want['points']]))
        if 'axis' in want:
            its = [M.at.get(M.key(x)) for x in J.items(norm(J, M.field(reps[1], 'items')))]
            if len(its) != 1 or kind(its[0]) != 'PolyLine':
                return out + ['its axis is %s' % [kind(x) for x in its]]
            ps = [M.at.get(M.key(x)) for x in J.items(norm(J, M.field(its[0], 'points')))]
            got = [geo.unit(J, x) for x in ps]
            if got != [geo.vec(J, ZERO), want['axis']]:
                out.append('its axis is %s' % [geo.vshow(x) for x in got])
        return out

    def enum(self, v, f):
        x = norm(self.J, self.M.field(v, f))
        if isinstance(x, Sym):
            return self.J.variant(x)
        return x.var if isinstance(x, Obj) else x


def V(*xs):
    return Obj('bevy_math::DVec%d' % len(xs), 'DVec%d' % len(xs), dict(zip('xyz', xs)))


ZERO = V(0.0, 0.0, 0.0)


def shape_spec():
    """shape of every kind of thing, from its parameters (T: thickness of the
    material of the element it belongs to)"""
    P, U, X, Z, Y = geo.poly, geo.vec, V(1.0, 0.0, 0.0), V(0.0, 0.0, 1.0), V(0.0, 1.0, 0.0)

    def rect(c, a, b, d, h, **kw):
        p = lambda x: x if isinstance(x, dict) else P(c.J, x)
        return dict(rect=[p(a), p(b)], dir=geo.unit(c.J, d), depth=p(h), **kw)

    def outline(c, ps, d, h, **kw):
        return dict(points=ps, dir=geo.unit(c.J, d), depth=h if isinstance(h, dict) else P(c.J, h), **kw)

    def pts(c, g, f='coords'):
        return [U(c.J, x) for x in c.J.items(g(f))]
    T = lambda c, i=-1: c.thickness(i)
    E = 0           # the call that made the element
    x = lambda c: U(c.J, X)
    S = {}
    S['vertical_wall'] = lambda c, g: rect(c, g('length'), T(c), Z, g('height'), axis=x(c))
    S['vertical_arbitrary_wall'] = lambda c, g: outline(c, [[p[0], {}, p[1]] for p in pts(c, g)], Y, T(c), axis=x(c))

    def cross(c, g):
        d = U(c.J, g('direction'))
        return [d[1], geo.padd({}, d[0], -1), {}]
    S['arbitrary_wall'] = lambda c, g: outline(c, pts(c, g), g('direction'), T(c), axis=cross(c, g))
    S['horizontal_arbitrary_slab'] = S['horizontal_arbitrary_roof'] = lambda c, g: outline(c, pts(c, g), Z, T(c))
    S['arbitrary_slab'] = lambda c, g: outline(c, pts(c, g), g('direction'), T(c))

    def vslab(c, g):
        a, b, h = U(c.J, g('start')), U(c.J, g('end')), P(c.J, g('height'))
        e = [geo.padd(a[i], b[i], -1) for i in (0, 1)]
        w = outline(c, [a + [h], a + [{}], b + [{}], b + [h]], Z, T(c))
        w['dir'] = [e[1], geo.padd({}, e[0], -1), {}]
        return w
    S['vertical_slab'] = vslab
    S['vertical_shading_device'] = lambda c, g: rect(c, g('length'), g('height'), Z, T(c))
    S['space'] = lambda c, g: outline(c, pts(c, g), Z, g('height'))
    S['vertical_opening'] = lambda c, g: rect(c, g('length'), T(c, E), Z, g('height'))
    S['opening'] = lambda c, g: rect(c, g('length'), T(c, E), g('direction'), g('height'))
    S['rect_opening'] = lambda c, g: rect(c, g('length'), g('height'), g('direction', E), T(c, E))
    S['horizontal_arbitrary_opening'] = S['horizontal_arbitrary_window_with_opening'] = \
        lambda c, g: outline(c, pts(c, g), Z, T(c, E))
    S['arbitrary_opening'] = S['arbitrary_window_with_opening'] = \
        lambda c, g: outline(c, pts(c, g), g('direction', E), T(c, E))
    S[('vertical_wall', 'window_with_opening')] = lambda c, g: rect(
        c, g('width'), T(c, E), c.typed('Direction3D'), g('height'),
        opening=rect(c, g('width'), T(c, E), Z, g('height')))
    S[('arbitrary_slab', 'window_with_opening')] = lambda c, g: rect(c, g('width'), g('height'), g('direction', E), T(c, E))
    return S


SHAPES = shape_spec()


def p10(ctx):
    return run(ctx, 'rel')


def p11(ctx):
    return run(ctx, 'shape')


def run(ctx, part):
    B = BB(ctx.F)
    I = B.I
    I.lens = (2,) if ctx.tier == 'quick' or part == 'rel' else (2, 3)
    jobs = []
    for start, before, m, k in CREATE:
        if part == 'shape' and m not in SHAPES and (before[-1:] + (m,)) not in SHAPES:
            continue
        name = '%s::%s' % (start if not before else before[-1], m)
        ctx.count('creation methods')
        for n in (0, 1, 2) if part == 'rel' else (1, 2):
            for share in ((False, True) if n and part == 'rel' else (False,)):
                what = '%s with %d of each thing before%s' % (name, n, ', shared type and material' if share else '')
                jobs.append(('creation', name, what, lambda J, n=n, share=share, start=start, before=before, m=m, k=k:
                             created(B, J, n, share, start, before, m, k, part)))
    import rule_project
    jobs += (rule_project.more_rel if part == 'rel' else rule_project.more_shape)(B)
    jobs.sort(key=lambda j: -(('2 of each' in j[2]) * 2 + ('1 other' in j[2]) * 3))

    def one(c, job):
        each(c, job[0], job[1], job[2], I, job[3])
        c.fns |= I.fn_used
    ctx.parallel(jobs, one)
    ctx.floor('creation methods', 33 if part == 'rel' else 18)
    return EXPLAIN[part]


def each(ctx, rule, key, what, I, run):
    for kd, r in I.paths(run):
        if kd == 'undecided':
            ctx.undecided(rule, what, r)
        elif kd == 'panic':
            ctx.bad(rule, key, '%s panics: %s' % (what, r))
        else:
            for p in r:
                ctx.bad(rule, key, '%s: %s' % (what, p))
            if not r:
                ctx.good(rule, what)


EXPLAIN = {
    'rel': 'Every public creation method of the builders is interpreted on builders whose collections hold 0, 1 and 2 '
           'arbitrary things, with arbitrary arguments that name new or already used types and materials; the builders '
           'are dropped by their own Drop code and the project is built. The model that reaches the writer is compared '
           'with that of the same history without the call.',
    'shape': 'The shape entries a creation method writes are evaluated as polynomials in the arguments and compared with '
             'the shape the parameters describe; moves are compared as affine maps.',
}


def created(B, J, n, share, start, before, m, k, part='rel'):
    # the same history without the call, for comparison
    ms = tuple(before) + (m,)
    base = Scenario(B, J, n, start)
    for x, p in base.plan(ms, share)[:-1]:
        base.call(x, p)
    M0 = base.finish()
    J.data['order'] = []
    sc = Scenario(B, J, n, start)
    prep = sc.plan(ms, share)
    for x, p in prep[:-1]:
        sc.call(x, p)
    prep = [p for _, p in prep]
    top = sc.top()
    tn = J.type_of(top.get())[1].split('::')[-1]
    owner = own_id(J, top, OWNER[tn])
    then = Model(B, J, sc.s.model()).at
    out = sc.call(m, prep[-1])
    new = out if out.adt.endswith('::TypedId') else own_id(J, sc.stack[-1], k)
    M1 = sc.finish()
    if DEBUG and (M0 is None or M1 is None):
        print(sc.text)
    if M0 is None or M1 is None:
        return ['the text built is not that of the model']
    probs = []
    call = Call(B, J, sc, M1, k, m, before[-1] if before else None, prep, owner, then)
    if new is None:
        raise Undecided('no number of the new %s' % k)
    nk = M1.key(new)
    v = M1.at.get(nk)
    if kind(v) != k:
        return ['the new %s is not in the model built' % k]
    if nk in then:
        return ['the new %s has a number that was in use' % k]
    call.new, call.v = nk, v
    if part == 'shape':
        return call.shapes()
    # entries from before
    for i, e in sc.s.ents:
        x = M1.at.get(M1.key(i))
        if x is None or not same_entry(J, x, e):
            probs.append('the entry %s is changed or lost' % M1.key(i))
    # relations
    ok_ = M1.key(owner)
    want = set()
    if k in CONTAINED and tn in ('IfcStoreyBuilder', 'IfcWallBuilder', 'IfcSlabBuilder'):
        want.add(('RelContainedInSpatialStructure', M1.key(storey_of(sc, J)), nk))
    if k in SPATIAL:
        want.add(('RelAggregates', ok_, nk))
    for a, t in zip(prep[-1][2], prep[-1][0]['ins'][1:]):
        if short(t) == 'TypedId':
            u = B.F.show(t[2][0])
            if u == k + 'Type':
                want.add(('RelDefinesByType', M1.key(a), nk))
            if u in ('MaterialLayerSetUsage', 'MaterialConstituentSet') or u == 'MaterialLayerSet' and k.endswith('Type'):
                want.add(('RelAssociatesMaterial', M1.key(a), nk))
    opening = None
    if k == 'OpeningElement':
        opening = nk
    if k == 'Window':
        fills = [a for r, a, b in M1.rels if r == 'RelFillsElement' and b == nk]
        opening = fills[0] if fills else None
        if opening is None or kind(M1.at.get(opening)) != 'OpeningElement' or opening in then:
            probs.append('the window fills no opening of its own')
            opening = None
        else:
            want.add(('RelFillsElement', opening, nk))
    if opening:
        want.add(('RelVoidsElement', ok_, opening))
    r0, r1 = M0.rels, M1.rels
    for w in sorted(want):
        c = r1.count(w)
        if c != 1:
            probs.append('%s is written %d times' % (show_rel(w), c))
    for w in sorted(set(r0)):
        if w not in r1:
            probs.append('%s of before is lost' % show_rel(w))
    for w in sorted(set(r1) - set(r0) - want):
        probs.append('%s appears' % show_rel(w))
    call.opening = opening
    probs += call.attributes()
    # everything written verifies
    for key, e in M1.items:
        if key in M0.at and key in {M1.key(i) for i, _ in sc.s.ents}:
            continue
        t = J.type_of(e)
        if t[0] != 'adt':
            raise Undecided('an entry of unknown type')
        r = J.deref(J.call_trait({'d': VER + '::verify_id_types', 'a': [t], 'n': 'verify_id_types', 'tr': VER},
                                 [tmp(e), tmp(M1.ifc)], None, None))
        if (J.variant(r) if isinstance(r, Sym) else r.var) != 'Ok':
            probs.append('a %s is written that verification refuses' % B.F.show(t))
    return probs


def show_rel(w):
    return '%s between %s and %s' % w


def storey_of(sc, J):
    for c in sc.all:
        x = own_id(J, c, 'Storey')
        if x is not None:
            return x
    return None
