"""P04: reference verification, decided per reference slot."""
import refs
import rule_text
from interp import *

VER = '::traits::ifc_type::IfcVerify'
IFCTYPE = '::traits::ifc_type::IfcType'

AXES = {'Axis2D', 'Axis3D'}
DIRS = {'Direction2D', 'Direction3D'}
UNITS = {'ConversionBasedUnit', 'DerivedUnit', 'MonetaryUnit', 'SiUnit'}
BUILDING_ELEMENTS = {'Wall', 'Slab', 'Roof', 'Door', 'Window', 'ShadingDevice'}
ELEMENTS = BUILDING_ELEMENTS | {'OpeningElement'}
SPATIAL = {'Site', 'Building', 'Storey', 'Space'}
OBJECTS = ELEMENTS | SPATIAL | {'Project'}
TYPES = {'WallType', 'SlabType', 'RoofType', 'DoorType', 'WindowType', 'SpaceType', 'ShadingDeviceType'}
# what the schema allows, among the entry types the library knows, for references that are declared without a
# target type: by attribute, or by entry type and attribute
UNTYPED = {
    'outer_curve': {'IndexedPolyCurve', 'PolyLine'},
    'swept_area': {'ArbitraryClosedProfileDef', 'RectangleProfileDef'},
    'relative_placement': AXES, 'world_coord_system': AXES, 'position': AXES, 'true_north': DIRS,
    'context_of_items': {'GeometricRepresentationContext', 'GeometricRepresentationSubContext'},
    'items': {'ExtrudedAreaSolid', 'MappedItem', 'PolyLine'},
    'target': {'CartesianTransformationOperator3D', 'CartesianTransformationOperator3DnonUniform'},
    'addresses': {'PostalAddress', 'TelecomAddress'},
    'dimensions': {'DimensionalExponents'},
    'has_property_sets': {'PropertySet'}, 'relating_property_definition': {'PropertySet'},
    'properties': {'PropertySingleValue'}, 'unit': UNITS, 'units': UNITS,
    'relating_type': TYPES,
    'object_placement': {'Axis3D', 'LocalPlacement', 'Point3D'},
    'relating_material': {'Material', 'MaterialConstituentSet', 'MaterialLayerSet', 'MaterialLayerSetUsage'},
}
SPECIFIC = {
    ('IndexedPolyCurve', 'points'): {'PointList2D', 'PointList3D'},
    ('PolyLine', 'points'): {'Point2D', 'Point3D'},
    ('RelAggregates', 'relating_object'): OBJECTS,
    ('RelAggregates', 'related_objects'): OBJECTS - {'Project'},
    ('RelAssociatesMaterial', 'related_objects'): OBJECTS | TYPES | {'PropertySet'},
    ('RelDeclares', 'related_definitions'): OBJECTS | TYPES | {'PropertySet'},
    ('RelDefinesByProperties', 'related_objects'): OBJECTS | TYPES,
    ('RelDefinesByType', 'related_objects'): OBJECTS,
    # the library also puts storeys into buildings this way
    ('RelContainedInSpatialStructure', 'related_elements'): ELEMENTS | SPATIAL,
    ('RelContainedInSpatialStructure', 'relating_structure'): ELEMENTS | SPATIAL,
    ('RelFillsElement', 'related_building_element'): ELEMENTS | {'Building'},
    ('RelVoidsElement', 'relating_building_element'): ELEMENTS | {'Building'},
}


def clone(s, old, new, lens):
    n = refs.Slot(s.owner, s.sym.replace(old, new), s.path, s.target,
                  {k.replace(old, new): v for k, v in s.pick.items()}, lens, s.kind)
    return n


def variants(s, long=()):
    """the slot itself, and for references in lists also later elements"""
    yield s, ''
    for n in long:
        for nm in s.lens:
            yield clone(s, nm + '[0]', '%s[%d]' % (nm, n - 1), {**s.lens, nm: n}), ' (element %d)' % n
    for nm in s.lens:
        yield clone(s, nm + '[0]', nm + '[1]', {**s.lens, nm: 2}), ' (second element)'


def verdicts(I, ents, slot, full, missing):
    """[(accepted?, concrete target types)] of verifying an entry whose slot refers to any entry / to nothing"""
    F = I.F
    ifcT = ('adt', F.find_adt('IFC'), ())

    def body(J):
        refs.context(J, slot, full)
        t = slot.owner
        v = J.sym('v', t)
        used = []

        def lookup(J, base, k):
            hit = slot.sym == J.show(J.getfield(k, '0'))
            used.append(hit)
            if hit and missing:
                return None
            return Sym('target' if hit else 'other', ('dyn', IFCTYPE))
        J.data['map_lookup'] = lookup
        ifc = J.sym('ifc', ifcT)
        r = J.deref(J.call_trait({'d': VER + '::verify_id_types', 'a': [t], 'n': 'verify_id_types', 'tr': VER},
                                 [tmp(v), tmp(ifc)], None, None))
        va = J.variant(r) if isinstance(r, Sym) else r.var
        return va, any(used), J.domain(Sym('target', ('dyn', '')))
    return list(I.paths(body))


def setup(F):
    I = rule_text.engine(F)
    ents = rule_text.entity_types(F)
    dummy = [t for t in ents if F.show(t) == 'Dummy']
    I.dyn_types = lambda v: ents if v.name.startswith('target') else dummy
    return I, ents, dummy


def accept_set(I, ents, s):
    """(accepted, rejected, dangling accepted?, errors)"""
    F = I.F
    acc, rej, errs, dangling = set(), set(), [], False
    for full in (False, True):
        for k, r in verdicts(I, ents, s, full, False):
            if k != 'ok':
                errs.append(str(r))
                continue
            (acc if r[0] == 'Ok' else rej).update(F.show(x) for x in r[2])
        for k, r in verdicts(I, ents, s, full, True):
            if k != 'ok':
                errs.append(str(r))
            elif r[0] == 'Ok':
                dangling = True
    return acc, rej, dangling, errs


def p04(ctx):
    F = ctx.F
    I, ents, dummy = setup(F)
    names = {F.show(t) for t in ents}
    for t in ents:
        for s0 in refs.slots(F, t):
            base = '%s.%s' % (F.show(t), s0.path)
            ctx.count('reference slots')
            for s, note in variants(s0, F.long()):
                key = base + note
                acc, rej, dangling, errs = accept_set(I, ents, s)
                ctx.count('paths', len(acc) + len(rej))
                if errs:
                    ctx.undecided('slot', key, errs[0])
                    continue
                if dangling:
                    ctx.bad('dangling', base, 'an entry %s whose reference %s names an absent entry is accepted' % (F.show(t), s0.path))
                else:
                    ctx.good('dangling', '%s rejects an absent entry' % key)
                both = acc & rej
                if both:
                    ctx.bad('stable', base, '%s: the verdict on %s depends on other parts of the entry' % (base, sorted(both)[:4]))
                else:
                    ctx.good('stable')
                want = expected(F, s, names)
                if want is None:
                    good = acc - {'Dummy'} and len(acc) < len(names)
                    want = {'some but not all entry types'}
                else:
                    good = acc == want | {'Dummy'}
                if good:
                    ctx.good('kind', '%s accepts exactly %s' % (key, sorted(acc)))
                elif len(acc) == len(names):
                    ctx.bad('kind', base, 'an entry %s may refer to an entry of any kind in %s; expected %s' % (
                        F.show(t), s0.path, sorted(want)))
                else:
                    ctx.bad('kind', base, '%s: accepted but not in the schema: %s; in the schema but refused: %s' % (
                        base, sorted(acc - want - {'Dummy'}), sorted((want | {'Dummy'}) - acc)))
    ctx.floor('reference slots', 145)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['std, itertools behave as modelled in vlib/natives.py',
                        'lists of references: the first element of a one-element list and the second of two stand for any']
    return ('For every stored reference of every entry type (found from the type declarations, not from the '
            'verification code) the verification code is interpreted abstractly on an entry whose reference names '
            'nothing, and names an entry of an arbitrary kind: the set of kinds for which the verdict is Ok is '
            'computed and compared with the declared target type of the reference, or with the schema for '
            'references declared without one. Every other reference of the entry resolves, with the optional parts all absent and '
            'all present.')


def expected(F, s, names):
    if s.target is not None:
        return {F.show(s.target)}
    last = s.path.split('.')[-1]
    return SPECIFIC.get((F.show(s.owner), last), UNTYPED.get(last))
