"""P12: constructors and setters store what they are given."""
import re
import rule_text
import schema
from interp import *
from rule_store import Store, callm, idof, same_entry

STRUCT = {'clone', 'default', 'from_str', 'mappings', 'eq', 'deref', 'deref_mut', 'fmt', 'parse'}


class Case:
    """one way to call a function: type arguments and arguments"""

    def __init__(self, sub, args, label):
        self.sub = sub
        self.args = args        # [(param name, maker)]
        self.label = label


def norm(J, v):
    """content of a value without the wrappers that only say `here is a value`"""
    for _ in range(8):
        v = J.deref(v)
        if isinstance(v, Sym) and v.ty[0] == 'adt' and short(v.ty) in ('OptionalParameter', 'IdOr', 'TypedId', 'IfcList', 'Id', 'Option') + PRIMS:
            v = J.expand(v)
        if not isinstance(v, Obj):
            return v
        n = v.adt.split('::')[-1]
        if n == 'OptionalParameter':
            if v.var != 'Custom':
                return v.var
            v = v.f['0']
        elif n == 'IdOr':
            v = v.f['0']
        elif n == 'TypedId':
            v = v.f['id']
        elif n in PRIMS or n == 'IfcList':
            v = v.f['0']
        elif n == 'Option':
            if v.var == 'None':
                return 'Omitted'
            v = v.f['0']
        else:
            return v
    return v


PRIMS = ('StringPrimitive', 'RealPrimitive', 'IntegerPrimitive')


def short(t):
    return t[1].split('::')[-1] if t[0] == 'adt' else None


class Build:
    def __init__(self, F):
        self.F = F
        self.I = rule_text.engine(F)
        self.L = schema.Layout(self.I)
        self.ents = rule_text.entity_types(F)
        self.IFC = ('adt', F.find_adt('IFC'), ())
        self.memo = {}

    def attrs(self, t):
        """[path] of the attributes of a type, attribute groups opened"""
        if t in self.memo:
            return self.memo[t]
        out = []
        for n, u in self.F.fields(t):
            if u[0] == 'adt' and u[1].startswith('::') and self.F.adts[u[1]]['kind'] == 'Struct' and self.L.is_base(u):
                out += [(n,) + p for p in self.attrs(u)]
            else:
                out.append((n,))
        self.memo[t] = out
        return out

    def at(self, J, v, path):
        for n in path:
            v = J.getfield(v, n)
        return v

    # ---- ways to call ------------------------------------------------
    def bounds(self, fn, b, g):
        """traits a type parameter must implement, with their arguments"""
        out = []
        for tr, a in fn['preds']:
            a = [self.F.tys[x] if isinstance(x, int) else x for x in a]
            if a and a[0] == ('param', g):
                out.append((tr, [self.F.subst(x, b) for x in a[1:]]))
        return out

    def candidates(self, fn, b, g):
        bs = [tr for tr, _ in self.bounds(fn, b, g) if tr.startswith('::')]
        return [t for t in self.ents if all(self.F.impl_for(tr, [t]) for tr in bs)] if bs else []

    def cases(self, fn, b):
        F = self.F
        own = [g for g in fn['gen'] if g not in b and not g.startswith("'")]
        plain = [g for g in own if not g.startswith('impl ') and any(tr.startswith('::') for tr, _ in self.bounds(fn, b, g))]
        cands = [self.candidates(fn, b, g) for g in plain]
        for g, c in zip(plain, cands):
            if not c:
                raise Undecided('no type for the parameter %s' % g)
        combos = [tuple(c[0] for c in cands)]
        for i, c in enumerate(cands):
            combos += [combos[0][:i] + (x,) + combos[0][i + 1:] for x in c[1:]]
        for combo in combos:
            sub = dict(b)
            sub.update(zip(plain, combo))
            refs = False
            for mode in ('id', 'value', 'plain id'):
                s2 = dict(sub)
                makers = []
                for i, t in enumerate(fn['ins']):
                    name = pname(fn, i)
                    s, mk, r = self.arg(fn, F.subst(t, s2), s2, name, mode)
                    refs |= r
                    s2.update(s)
                    makers.append((name, F.subst(t, s2), mk))
                yield Case(s2, makers, '/'.join(F.show(x) for x in combo) + ' ' + mode)
                if not refs:
                    break

    def arg(self, fn, t, sub, name, mode):
        F = self.F
        if t[0] == 'param':
            into = [a[0] for tr, a in self.bounds(fn, sub, t[1]) if tr == 'std::convert::Into']
            into = [F.subst(x, sub) for x in into]
            if into:
                x = into[0]
                n = short(x)
                if n == 'StringPrimitive':
                    return {t[1]: ('ref', ('prim', 'str'), 0)}, lambda J, s: J.sym(name, ('ref', ('prim', 'str'), 0)), False
                if n == 'RealPrimitive':
                    return {t[1]: ('prim', 'f64')}, lambda J, s: J.sym(name, ('prim', 'f64')), False
                if n == 'IdOr':
                    u = x[2][0]
                    if mode == 'value':
                        return {t[1]: u}, lambda J, s: J.sym(name, u), True
                    if mode == 'plain id':
                        i = ('adt', F.find_adt('Id'), ())
                        return {t[1]: i}, lambda J, s: J.sym(name, i), True
                    i = ('adt', F.find_adt('TypedId'), (u,))
                    return {t[1]: i}, lambda J, s: J.sym(name, i), True
                return {t[1]: x}, lambda J, s: J.sym(name, x), False
            r = iterable(self, fn, t, sub, name)
            if r:
                return r + (True,)
            tr = '::' + t[1][5:]
            us = [u for u in self.ents if any(x.endswith(tr) and F.impl_for(x, [u]) for x, _ in self.bounds(fn, sub, t[1]))]
            if us:
                u = us[0]
                return {t[1]: u}, lambda J, s: J.sym(name, u), False
            raise Undecided('argument of type %s' % t[1])
        if t[0] == 'ref' and t[1] == self.IFC:
            return {}, lambda J, s: s.ifc(t[2]), False
        if t[0] == 'tuple':
            sub2, mks, refs = {}, [], False
            for i, u in enumerate(t[1]):
                s, mk, r = self.arg(fn, u, sub, '%s.%d' % (name, i), mode)
                sub2.update(s)
                mks.append(mk)
                refs |= r
            return sub2, (lambda J, s: Tup(mk(J, s) for mk in mks)), refs
        return {}, lambda J, s: J.sym(name, t), False


def pname(fn, i):
    p = fn['b']['params'][i].get('p') or {}
    return p.get('n') or 'arg%d' % i


class World(Store):
    """a model with n arbitrary entries"""

    def __init__(self, J, n, IFC):
        Store.__init__(self, J, n)
        self.c = Cell(Obj(IFC[1], 'IFC', {'header': Sym('header', ('prim', '?')), 'data': self.cell.get(),
                                           'footer': Sym('footer', ('prim', '?'))}))

    def ifc(self, m):
        return Ref(self.c, m)

    def sync(self):
        self.cell.set(self.J.deref(self.J.getfield(self.c.get(), 'data')))


# constructors: attribute every argument is stored in (None: the model)
CTORS = {
    'ArbitraryClosedProfileDef::new': 'profile_type outer_curve -',
    'Axis2D::new': 'location -', 'Axis3D::new': 'location -',
    'Direction2D::from': '|0|', 'Direction3D::from': '|0|', 'Point2D::from': '0', 'Point3D::from': '0',
    'ExtrudedAreaSolid::new': 'swept_area extruded_direction depth -',
    'IndexedPolyCurve::new': 'points -',
    'LocalPlacement::new': 'relative_placement -',
    'CartesianTransformationOperator3DnonUniform::new': 'local_origin (axis_x,axis_y,axis_z) (scale,scale_y,scale_z) -',
    'CartesianTransformationOperator3D::new': 'local_origin (axis_x,axis_y,axis_z) scale -',
    'Transform3DBase::new': 'local_origin (axis_x,axis_y,axis_z) scale -',
    'PointList2D::new': 'coord_list', 'PointList3D::new': 'coord_list',
    'PolyLine::from': 'points -',
    'ProductDefinitionShape::new': '',
    'RectangleProfileDef::new': 'profile_type x_dim y_dim',
    'GeometricRepresentationContext::new': 'coord_space_dimension world_coord_system -',
    'GeometricRepresentationSubContext::derive': 'parent_context target_view -',
    'ShapeRepresentation::new': 'context_of_items representation_identifier representation_type -',
    'Material::new': 'material', 'MaterialConstituent::new': 'material', 'MaterialConstituentSet::new': '',
    'MaterialLayer::new': 'layer_thickness is_ventilated', 'MaterialLayerSet::new': '',
    'MaterialLayerSetUsage::new': 'spatial_element_structure layer_set_direction direction_sense '
                                  'offset_from_reference_line -',
    'Application::new': 'application_developer version application_full_name application_identifier',
    'Building::new': 'name', 'Door::new': 'name', 'OpeningElement::new': 'name', 'Project::new': 'name', 'Roof::new': 'name',
    'ShadingDevice::new': 'name', 'Site::new': 'name', 'Slab::new': 'name', 'Space::new': 'name', 'Storey::new': 'name',
    'Wall::new': 'name', 'Window::new': 'name',
    'DoorType::new': 'name predefined_type operation_type', 'RoofType::new': 'name predefined_type',
    'ShadingDeviceType::new': 'name predefined_type', 'SlabType::new': 'name predefined_type',
    'SpaceType::new': 'name predefined_type', 'WallType::new': 'name predefined_type',
    'WindowType::new': 'name predefined_type partitioning_type',
    'Organization::new': 'id name description',
    'OwnerHistory::new': 'change_action creation_date',
    'Person::empty': '', 'PersonAndOrganization::new': 'the_person the_organization',
    'Context::new': '=root', 'Element::new': '=product', 'ElementType::new': '=type_product', 'Object::new': '=root',
    'Product::new': '=object', 'RelAssociates::new': '=root', 'Root::new': 'name', 'SpatialElement::new': '=product',
    'SpatialStructureElement::new': '=spatial_element', 'TypeObject::new': '=root', 'TypeProduct::new': '=type_object',
    'PropertyBase::new': 'name', 'PropertySet::new': 'name properties', 'PropertySingleValue::new': 'name value unit',
    'MappedItem::new': 'source target -',
    'RelAggregates::new': 'name relating_object related_objects',
    'RelAssociatesMaterial::new': 'name relating_material -',
    'RelContainedInSpatialStructure::new': 'name relating_structure -',
    'RelDeclares::new': 'name relating_context -',
    'RelDefinesByProperties::new': 'name relating_property_definition -',
    'RelDefinesByType::new': 'name relating_type -',
    'RelFillsElement::new': 'name relating_opening_element related_building_element -',
    'RelVoidsElement::new': 'name relating_building_element related_opening_element -',
    'RepresentationMap::new': 'origin representation -',
    'UnitAssigment::new': 'units -', 'SiUnit::new': 'unit_type prefix name',
    'RealValue::from': '0', 'ThermalTransmittanceValue::from': '0',
}
# attributes a constructor gives a constant value
CONST = {
    ('GeometricRepresentationContext', 'context_type'): 'Model',
    ('GeometricRepresentationContext', 'context_identifier'): 'RepresentationIdentifier::Body',
    ('GeometricRepresentationSubContext', 'context_type'): 'Model',
    ('GeometricRepresentationSubContext', 'context_identifier'): 'RepresentationIdentifier::Body',
    ('GeometricRepresentationSubContext', 'coord_space_dimension'): 'Inherited',
    ('GeometricRepresentationSubContext', 'precision'): 'Inherited',
    ('GeometricRepresentationSubContext', 'world_coord_system'): 'Inherited',
    ('GeometricRepresentationSubContext', 'true_north'): 'Inherited',
    ('SiUnit', 'dimensions'): 'Inherited',
    ('OpeningElement', 'predefined_type'): None,
}
# setters whose attribute is not named like them; lists are extended
SETTERS = {'relative_to': 'placement_rel_to', 'add_representation': 'representations', 'add_item': 'items',
           'add_constituent': 'material_constituents', 'add_layer': 'material_layers', 'add_role': 'roles',
           'add_address': 'addresses', 'add_middle_name': 'middle_names', 'add_suffix_title': 'suffix_titles',
           'add_prefix_title': 'prefix_titles', 'add_context': 'representation_context',
           'unit_assignment': 'units_in_context', 'relate_obj': 'related_objects', 'relate_push': 'related_objects',
           'relate_structure': 'related_elements', 'relate_definition': 'related_definitions',
           'MaterialLayerSet::name': 'layer_set_name'}
# further attributes a setter sets to the same value
ALSO = {'OwnerHistory::owning_user': 'last_modifying_user',
        'OwnerHistory::owning_application': 'last_modifying_application'}


def plain(J, v):
    """text without escape codes is not changed by decoding them"""
    v = J.deref(v)
    while isinstance(v, Sym) and v.op == 'replace' and isinstance(v.args[1], str) and v.args[1].startswith('\\X2\\'):
        v = J.deref(v.args[0])
    return v


def naked(J, v):
    while isinstance(v, Obj) and v.adt.split('::')[-1] in ('IfcDVec2', 'IfcDVec3'):
        v = J.deref(v.f['0'])
    return v


class Check:
    def __init__(self, B, J, s):
        self.B, self.J, self.s = B, J, s
        self.new = []           # numbers of entries that may have been added

    def holds(self, got, want):
        """problem text, or None when the attribute holds the argument"""
        J = self.J
        got = norm(J, got)
        want_raw = J.deref(want)
        if isinstance(want_raw, Sym) and want_raw.ty[0] == 'adt' and short(want_raw.ty) == 'Vec':
            want_raw = Seq(J.items(want_raw))
        if isinstance(want_raw, (Seq, It)):
            got = J.deref(got)
            items = J.items(got) if isinstance(got, (Sym, Seq)) else None
            if items is None or len(items) != len(want_raw.items):
                return 'holds %s, given %s' % (J.show(got), J.show(want_raw))
            for a, b in zip(items, want_raw.items):
                r = self.holds(a, b)
                if r:
                    return r
            return None
        want = norm(J, want_raw)
        if isinstance(want, Sym) and want.ty == ('prim', 'bool'):
            return None if isinstance(got, Obj) and got.var == ('True' if J.truth(want) else 'False') else 'holds %s' % J.show(got)
        if isinstance(got, Obj) and got.adt.endswith('::Id') and isinstance(want, (Sym, Obj)) and (
                want.ty if isinstance(want, Sym) else ('adt', want.adt, ()))[1] != got.adt:
            # an entity given in place: the attribute refers to a new entry
            if any(J.equal(got, e) for e, _ in self.s.ents):
                return 'refers to an entry that was there before'
            if any(J.equal(got, e) for e in self.new):
                return 'refers to the entry of another argument'
            self.new.append(got)
            v = self.s.at(got)
            if v is None or not same_entry(J, v, want):
                return 'refers to an entry that is not the given one'
            return None
        g, w = (naked(J, plain(J, x)) for x in (got, want))
        if isinstance(g, str) or isinstance(w, str):
            return None if g == w else 'holds %s, given %s' % (J.show(got), J.show(want))
        return None if J.same(g, w) else 'holds %s, given %s' % (J.show(got), J.show(want))


def iterable(B, fn, t, sub, name):
    """arguments that are iterators: two arbitrary items"""
    m = re.match(r'impl (IntoIterator|Iterator)<Item = (.*)>$', t[1])
    if not m:
        return None
    x = m.group(2)
    F = B.F
    for g in list(sub):
        if g == x:
            u = sub[g]
            break
    else:
        nested = re.match(r'impl Into<(\w+)>$', x)
        u = None
        if nested:
            u = ('adt', F.find_adt(nested.group(1)), ())
            extra = {x: u}
        else:
            mm = re.match(r'(\w+)(?:<(\w+)>)?$', x)
            if mm and F.find_adt(mm.group(1)):
                u = ('adt', F.find_adt(mm.group(1)), (('adt', F.find_adt(mm.group(2)), ()),) if mm.group(2) else ())
        if u is None:
            return None
        vec = ('adt', 'std::vec::IntoIter' if m.group(1) == 'Iterator' else 'std::vec::Vec', (u,))
        return ({t[1]: vec, **({x: u} if nested else {})},
                lambda J, s: (It if m.group(1) == 'Iterator' else Seq)([J.sym('%s%d' % (name, i), u) for i in (0, 1)]))
    vec = ('adt', 'std::vec::IntoIter' if m.group(1) == 'Iterator' else 'std::vec::Vec', (u,))
    return {t[1]: vec}, lambda J, s: (It if m.group(1) == 'Iterator' else Seq)([J.sym('%s%d' % (name, i), u) for i in (0, 1)])


def split_spec(spec):
    return re.findall(r'\([^)]*\)|\S+', spec)


def find(B, name):
    """functions `Type::method`, inherent or of a conversion trait"""
    F = B.F
    tn, mn = name.split('::')
    out = []
    ims = list(F.inherent) + F.impls_by_trait.get('std::convert::From', [])
    for im in ims:
        if short(im['self']) == tn and mn in im['imap']:
            fn = F.fns.get(im['imap'][mn][0])
            if fn and fn['pub'] and fn.get('b'):
                out.append((im['self'], fn))
    return out


def setters(B, t):
    """[(method, fn, substitution, by reference)] of a type"""
    F = B.F
    out = []
    for im in F.inherent:
        b = {}
        if F.unify(im['self'], t, b):
            for n, (k, _) in im['imap'].items():
                fn = F.fns.get(k)
                if fn and fn['pub'] and fn['out'] == t and fn['ins'][:1] == [t]:
                    out.append((n, fn, b))
    for tr, td in F.traits.items():
        if not tr.startswith('::'):
            continue
        for n, k, hasdef in td['items']:
            fn = F.fns.get(k)
            if not fn or not fn.get('b') or not fn['ins'] or fn['ins'][0] not in (('param', 'Self'), ('ref', ('param', 'Self'), 1)):
                continue
            if not (fn['out'] == ('param', 'Self') or (fn['ins'][0][0] == 'ref' and len(fn['ins']) > 1)):
                continue
            targs = [g for g in td.get('gen', []) if g != 'Self']
            if targs:
                cands = [u for u in B.ents if F.impl_for(tr, [t, u])]
                for u in cands[:2]:
                    out.append((n, overridden(F, tr, [t, u], n, fn), {'Self': t, targs[0]: u}))
            elif F.impl_for(tr, [t]):
                out.append((n, overridden(F, tr, [t], n, fn), {'Self': t}))
    return out


def overridden(F, tr, a, n, fn):
    im, b = F.impl_for(tr, a)
    if n in im['imap']:
        return F.fns[im['imap'][n][0]]
    return fn


def p12(ctx):
    F = ctx.F
    B = Build(F)
    I = B.I
    I.lens = (0, 1, 2)

    def run(kind, key, body):
        n = 0
        for k, r in I.paths(body):
            n += 1
            if k == 'undecided':
                ctx.undecided(kind, key, r)
            elif k == 'panic':
                ctx.bad(kind, key, '%s panics: %s' % (key, r))
            elif r:
                ctx.bad(kind, key, '%s: %s' % (key, r))
            else:
                ctx.good(kind, key)
        ctx.count('paths', n)

    seen = set()
    for name, spec in CTORS.items():
        fns = find(B, name)
        if not fns:
            ctx.undecided('constructor', name, 'no such function')
            continue
        for t, fn in fns:
            seen.add(fn['d'])
            try:
                cases = list(B.cases(fn, {}))
            except Undecided as e:
                ctx.undecided('constructor', name, str(e))
                continue
            parts = split_spec(spec)
            if len(parts) != len(fn['ins']):
                ctx.undecided('constructor', name, 'has other parameters')
                continue
            ctx.count('constructors')
            for c in cases:
                run('constructor', name, lambda J, c=c: construct(B, J, name, t, fn, c, parts))
    for im in F.inherent:
        t = im['self']
        for n, (k, _) in im['imap'].items():
            fn = F.fns.get(k)
            if fn and t in B.ents and fn['pub'] and fn['out'] == t and fn['ins'][:1] != [t] and fn['d'] not in seen and n not in STRUCT \
                    and not n.startswith('new_'):
                ctx.undecided('constructor', '%s::%s' % (F.show(t), n), 'not in the table')
    types = list(B.ents)
    for t in types:
        for n, fn, b in setters(B, t):
            name = '%s::%s' % (F.show(t), n)
            field = SETTERS.get(name) or SETTERS.get(n) or n
            paths = [p for p in B.attrs(t) if p[-1] == field]
            if not paths:
                ctx.undecided('setter', name, 'no attribute %s' % field)
                continue
            try:
                cases = list(B.cases(fn, b))
            except Undecided as e:
                ctx.undecided('setter', name, str(e))
                continue
            ctx.count('setters')
            for c in cases:
                run('setter', name, lambda J, c=c: assign(B, J, name, t, fn, c, min(paths, key=len)))
    ctx.floor('constructor', 300)
    ctx.floor('setter', 400)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['texts without the escape codes of umlauts; decoding leaves those as they are',
                        'the model has one entry before the call (P09 covers stores of other sizes)']
    return ('Abstract interpretation of every public constructor and setter of an entity with symbolic arguments (references, '
            'entities given in place, every admissible type argument): each attribute of the result is compared with the argument it '
            'is for; all other attributes must be absent, empty or the fixed constant (constructors) or as before (setters), and the '
            'model must gain exactly the entries given in place.')


def finish(J, s, chk):
    s.sync()
    return chk


def construct(B, J, name, t, fn, c, parts):
    s = World(J, 1, B.IFC)
    args = [mk(J, s) for _, _, mk in c.args]
    given = list(args)
    sub = {g: v for g, v in c.sub.items()}
    out = J.run_fn(fn, sub, args)
    s.sync()
    chk = Check(B, J, s)
    want = {}
    whole = {}
    for p, a in zip(parts, given):
        if p == '-':
            continue
        if p[0] == '=':
            whole[p[1:]] = a
        elif p[0] == '|':
            a = J.deref(a)
            ty = J.type_of(a)
            want[p[1:-1]] = J.native(ty[1] + '::normalize', None, [], [a], ty, None)
        elif p[0] == '(':
            for i, q in enumerate(p[1:-1].split(',')):
                want[q] = J.deref(a).items[i]
        else:
            want[p] = a
    left = set(want)
    if left - {p[-1] for p in B.attrs(t)}:
        raise Undecided('no attribute %s' % ', '.join(sorted(left - {p[-1] for p in B.attrs(t)})))
    for path in B.attrs(t):
        got = B.at(J, out, path)
        f = path[-1]
        if path[0] in whole:
            if not J.same(got, B.at(J, whole[path[0]], path[1:])):
                return '%s is not that of the given %s' % (f, path[0])
            continue
        if f in left:
            left.discard(f)
            r = chk.holds(got, want[f])
            if r:
                return 'the attribute %s %s' % (f, r)
            continue
        v = norm(J, got)
        if f == 'global_id':
            continue
        const = CONST.get((t[1].split('::')[-1], f), 'Omitted')
        if isinstance(v, Seq):
            if v.items:
                return 'the attribute %s is not empty' % f
        elif const is not None and (v if isinstance(v, str) else J.show(v)) != const:
            return 'the attribute %s is %s, not given as an argument' % (f, J.show(v))
    return s.unchanged(chk.new)


def assign(B, J, name, t, fn, c, path):
    s = World(J, 1, B.IFC)
    me = J.sym('v', t)
    J.data['variant_pick'] = lambda J2, v: no_inherited(J2, v, t)
    byref = fn['ins'][0][0] == 'ref'
    cell = Cell(me)
    args = [Ref(cell, 1) if byref else me]
    given = [mk(J, s) for _, _, mk in c.args[1:]]
    args += given
    out = J.run_fn(fn, c.sub, args)
    if byref:
        out = cell.get()
    s.sync()
    chk = Check(B, J, s)
    vals = [g for g, (_, ty, _) in zip(given, c.args[1:]) if not (ty[0] == 'ref' and ty[1] == B.IFC)]
    if len(vals) != 1:
        raise Undecided('takes %d values' % len(vals))
    fields = {path[-1]} | set(ALSO.get(name, '').split())
    for p in B.attrs(t):
        old = B.at(J, J.sym('v', t), p)
        got = B.at(J, out, p)
        if p != path and not (p[-1] in fields and p[-1] != path[-1]):
            if not J.same(old, got):
                return 'changes the attribute %s' % '.'.join(p)
            continue
        after = norm(J, got)
        before = norm(J, old)
        listy = isinstance(after, Seq) and not isinstance(J.deref(vals[0]), (Seq,)) and not (
            isinstance(J.deref(vals[0]), Sym) and J.deref(vals[0]).ty[0] == 'adt' and short(J.deref(vals[0]).ty) == 'Vec')
        if listy:
            old_items = [] if before == 'Omitted' else list(J.items(before))
            if len(after.items) != len(old_items) + 1 or not all(J.same(a, b) for a, b in zip(old_items, after.items)):
                return 'the list %s is not extended by one item' % p[-1]
            r = chk.holds(after.items[-1], vals[0])
        else:
            if p != path:
                r = None if J.same(after, norm(J, B.at(J, out, path))) else 'is not set alike'
            else:
                r = chk.holds(got, vals[0])
        if r:
            return 'the attribute %s %s' % (p[-1], r)
    return s.unchanged(chk.new)


def no_inherited(J, v, t):
    """optional lists are absent or present before a setter runs, never derived"""
    if v.ty[0] == 'adt' and short(v.ty) == 'OptionalParameter' and v.ty[2][0][0] == 'adt' and short(v.ty[2][0]) == 'IfcList':
        return ('Omitted', 'Custom')[J.choose(2, v.name)]
    return None
