"""P23: printed records follow the layout of the IFC schema."""
import re
import rule_text
import schema
from interp import *

ROOT = 'global_id:T owner_history:?# name:?T description:?T '
OBJECT = ROOT + 'object_type:?T '
PRODUCT = OBJECT + 'object_placement:?# representation:?# '
ELEMENT = PRODUCT + 'tag:?T '
SPATIAL = PRODUCT + 'long_name:?T composition_type:?E:composition '
ETYPE = ROOT + 'applicable_occurence:?T has_property_sets:?[#] representation_maps:?[#] tag:?T element_type:?T '
T3D = 'axis_x:?# axis_y:?# local_origin:# scale:?R axis_z:?# '
# field names are those of the library's attributes, in the order of the schema's attributes
RECORDS = {
    'ArbitraryClosedProfileDef': ('IFCARBITRARYCLOSEDPROFILEDEF', 'profile_type:E:profile profile_name:?T outer_curve:#'),
    'Axis2D': ('IFCAXIS2PLACEMENT2D', 'location:# local_x:?#'),
    'Axis3D': ('IFCAXIS2PLACEMENT3D', 'location:# local_z:?# local_x:?#'),
    'Direction2D': ('IFCDIRECTION', '0:[R]'),
    'Direction3D': ('IFCDIRECTION', '0:[R]'),
    'Point2D': ('IFCCARTESIANPOINT', '0:[R]'),
    'Point3D': ('IFCCARTESIANPOINT', '0:[R]'),
    'ExtrudedAreaSolid': ('IFCEXTRUDEDAREASOLID', 'swept_area:# position:?# extruded_direction:# depth:R'),
    'IndexedPolyCurve': ('IFCINDEXEDPOLYCURVE', 'points:# segments:?[V] self_intersect:?B'),
    'LocalPlacement': ('IFCLOCALPLACEMENT', 'placement_rel_to:?# relative_placement:#'),
    'CartesianTransformationOperator3D': ('IFCCARTESIANTRANSFORMATIONOPERATOR3D', T3D),
    'CartesianTransformationOperator3DnonUniform': ('IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM',
                                                    T3D + 'scale_y:?R scale_z:?R'),
    'PointList2D': ('IFCCARTESIANPOINTLIST2D', 'coord_list:[[R]] tag_list:?[T]'),
    'PointList3D': ('IFCCARTESIANPOINTLIST3D', 'coord_list:[[R]] tag_list:?[T]'),
    'PolyLine': ('IFCPOLYLINE', 'points:[#]'),
    'ProductDefinitionShape': ('IFCPRODUCTDEFINITIONSHAPE', 'name:?T description:?T representations:[#]'),
    'RectangleProfileDef': ('IFCRECTANGLEPROFILEDEF', 'profile_type:E:profile profile_name:?T position:?# x_dim:R y_dim:R'),
    'GeometricRepresentationContext': ('IFCGEOMETRICREPRESENTATIONCONTEXT', 'context_identifier:?T context_type:?T '
                                       'coord_space_dimension:I precision:?R world_coord_system:# true_north:?#'),
    'GeometricRepresentationSubContext': ('IFCGEOMETRICREPRESENTATIONSUBCONTEXT', 'context_identifier:?T context_type:?T '
                                          'coord_space_dimension:*I precision:*R world_coord_system:*# true_north:*# '
                                          'parent_context:# target_scale:?R target_view:E:projection '
                                          'user_defined_target_view:?T'),
    'ShapeRepresentation': ('IFCSHAPEREPRESENTATION', 'context_of_items:# representation_identifier:?T '
                            'representation_type:?T items:[#]'),
    'Material': ('IFCMATERIAL', 'material:T description:?T category:?T'),
    'MaterialConstituent': ('IFCMATERIALCONSTITUENT', 'name:?T description:?T material:# fraction:?R category:?T'),
    'MaterialConstituentSet': ('IFCMATERIALCONSTITUENTSET', 'name:?T description:?T material_constituents:[#]'),
    'MaterialLayer': ('IFCMATERIALLAYER', 'material:?# layer_thickness:R is_ventilated:?B name:?T description:?T '
                      'category:?T priority:?I'),
    'MaterialLayerSet': ('IFCMATERIALLAYERSET', 'material_layers:[#] layer_set_name:?T description:?T'),
    'MaterialLayerSetUsage': ('IFCMATERIALLAYERSETUSAGE', 'spatial_element_structure:# layer_set_direction:E:layerdirection '
                              'direction_sense:E:sense offset_from_reference_line:R reference_extent:?R'),
    'ActorRole': ('IFCACTORROLE', 'role:E:role user_defined_role:?T description:?T'),
    'TelecomAddress': ('IFCTELECOMADDRESS', 'purpose:?E:address description:?T user_defined_purpose:?T '
                       'telephone_numbers:?[T] facsimile_numbers:?[T] pager_number:?T email_addresses:?[T] homepage_url:?T'),
    'PostalAddress': ('IFCPOSTALADDRESS', 'purpose:?E:address description:?T user_defined_purpose:?T internal_location:?T '
                      'address_lines:?[T] postal_box:?T town:?T region:?T postal_code:?T country:?T'),
    'Application': ('IFCAPPLICATION', 'application_developer:# version:T application_full_name:T application_identifier:T'),
    'Organization': ('IFCORGANIZATION', 'id:?T name:T description:?T roles:?[#] addresses:?[#]'),
    'OwnerHistory': ('IFCOWNERHISTORY', 'owning_user:# owning_application:# state:?E:state change_action:E:change '
                     'last_modified_date:?I last_modifying_user:?# last_modifying_application:?# creation_date:I'),
    'Person': ('IFCPERSON', 'id:?T family_name:?T given_name:?T middle_names:?[T] prefix_titles:?[T] suffix_titles:?[T] '
               'roles:?[#] addresses:?[#]'),
    'PersonAndOrganization': ('IFCPERSONANDORGANIZATION', 'the_person:# the_organization:# roles:?[#]'),
    'Project': ('IFCPROJECT', ROOT + 'object_type:?T long_name:?T phase:?T representation_context:[#] units_in_context:?#'),
    'Site': ('IFCSITE', SPATIAL + 'ref_latitude:?[I] ref_longitude:?[I] ref_elevation:?R land_title_number:?T site_address:?#'),
    'Building': ('IFCBUILDING', SPATIAL + 'elevation_of_ref_height:?R elevation_of_terrain:?R building_address:?#'),
    'Storey': ('IFCBUILDINGSTOREY', SPATIAL + 'elevation:?R'),
    'Space': ('IFCSPACE', SPATIAL + 'predefined_type:?E:space elevation_with_flooring:?R'),
    'Wall': ('IFCWALL', ELEMENT + 'predefined_type:?E:wall'),
    'Slab': ('IFCSLAB', ELEMENT + 'predefined_type:?E:slab'),
    'Roof': ('IFCROOF', ELEMENT + 'predefined_type:?E:roof'),
    'ShadingDevice': ('IFCSHADINGDEVICE', ELEMENT + 'predefined_type:?E:shading'),
    'OpeningElement': ('IFCOPENINGELEMENT', ELEMENT + 'predefined_type:?E:opening'),
    'Door': ('IFCDOOR', ELEMENT + 'overall_height:?R overall_width:?R predefined_type:?E:door operation_type:?E:dooroperation '
             'user_defining_operation_type:?T'),
    'Window': ('IFCWINDOW', ELEMENT + 'overall_height:?R overall_width:?R predefined_type:?E:window '
               'partitioning_type:?E:partitioning user_defining_partitioning_type:?T'),
    'WallType': ('IFCWALLTYPE', ETYPE + 'predefined_type:E:wall'),
    'SlabType': ('IFCSLABTYPE', ETYPE + 'predefined_type:E:slab'),
    'RoofType': ('IFCROOFTYPE', ETYPE + 'predefined_type:E:roof'),
    'ShadingDeviceType': ('IFCSHADINGDEVICETYPE', ETYPE + 'predefined_type:E:shading'),
    'SpaceType': ('IFCSPACETYPE', ETYPE + 'predefined_type:E:space long_name:?T'),
    'DoorType': ('IFCDOORTYPE', ETYPE + 'predefined_type:E:door operation_type:E:dooroperation '
                 'parameter_takes_precedence:?B user_defined_partitioning_type:?T'),
    'WindowType': ('IFCWINDOWTYPE', ETYPE + 'predefined_type:E:window partitioning_type:E:partitioning '
                   'parameter_takes_precedence:?B user_defined_partitioning_type:?T'),
    'MaterialProperties': ('IFCMATERIALPROPERTIES', 'name:?T description:?T properties:[#] material:#'),
    'PropertySet': ('IFCPROPERTYSET', ROOT + 'properties:[#]'),
    'PropertySingleValue': ('IFCPROPERTYSINGLEVALUE', 'name:T description:?T value:?V unit:?#'),
    'MappedItem': ('IFCMAPPEDITEM', 'source:# target:#'),
    'RelAggregates': ('IFCRELAGGREGATES', ROOT + 'relating_object:# related_objects:[#]'),
    'RelAssociatesMaterial': ('IFCRELASSOCIATESMATERIAL', ROOT + 'related_objects:[#] relating_material:#'),
    'RelContainedInSpatialStructure': ('IFCRELCONTAINEDINSPATIALSTRUCTURE', ROOT + 'related_elements:[#] relating_structure:#'),
    'RelDeclares': ('IFCRELDECLARES', ROOT + 'relating_context:# related_definitions:[#]'),
    'RelDefinesByProperties': ('IFCRELDEFINESBYPROPERTIES', ROOT + 'related_objects:[#] relating_property_definition:#'),
    'RelDefinesByType': ('IFCRELDEFINESBYTYPE', ROOT + 'related_objects:[#] relating_type:#'),
    'RelFillsElement': ('IFCRELFILLSELEMENT', ROOT + 'relating_opening_element:# related_building_element:#'),
    'RelVoidsElement': ('IFCRELVOIDSELEMENT', ROOT + 'relating_building_element:# related_opening_element:#'),
    'RepresentationMap': ('IFCREPRESENTATIONMAP', 'origin:# representation:#'),
    'UnitAssigment': ('IFCUNITASSIGNMENT', 'units:[#]'),
    'ConversionBasedUnit': ('IFCCONVERSIONBASEDUNIT', 'dimensions:# unit_type:E:unit name:T conversion_factor:#'),
    'DerivedUnit': ('IFCDERIVEDUNIT', 'elements:[#] unit_type:E:derivedunit user_defined_type:?T'),
    'DerivedUnitElement': ('IFCDERIVEDUNITELEMENT', 'unit:# exponent:I'),
    'DimensionalExponents': ('IFCDIMENSIONALEXPONENTS', 'length:I mass:I time:I electric_current:I '
                             'thermodynamic_temperature:I amount_of_substance:I luminouse_intensity:I'),
    'MeasureWithUnit': ('IFCMEASUREWITHUNIT', 'value:V unit:#'),
    'MonetaryUnit': ('IFCMONETARYUNIT', 'currency:T'),
    'SiUnit': ('IFCSIUNIT', 'dimensions:*# unit_type:E:unit prefix:?E:prefix name:E:siname'),
    # typed values
    'PlaneAngleMeasure': ('IFCPLANEANGLEMEASURE', 'value:R'),
    'BoolValue': ('IFCBOOLEAN', '0:B'), 'LabelValue': ('IFCLABEL', '0:T'), 'RealValue': ('IFCREAL', '0:R'),
    'IdentifierValue': ('IFCIDENTIFIER', '0:T'), 'ThermalTransmittanceValue': ('IFCTHERMALTRANSMITTANCEMEASURE', '0:R'),
}
VALUES = {'PlaneAngleMeasure', 'BoolValue', 'LabelValue', 'RealValue', 'IdentifierValue', 'ThermalTransmittanceValue'}
W = str.split
# tokens of the schema | tokens only some schema versions have
ENUMS = {
    'composition': ('COMPLEX ELEMENT PARTIAL', ''),
    'profile': ('CURVE AREA', ''),
    'projection': ('GRAPH_VIEW SKETCH_VIEW MODEL_VIEW PLAN_VIEW REFLECTED_PLAN_VIEW SECTION_VIEW ELEVATION_VIEW '
                   'USERDEFINED NOTDEFINED', ''),
    'layerdirection': ('AXIS1 AXIS2 AXIS3', ''),
    'sense': ('POSITIVE NEGATIVE', ''),
    'role': ('SUPPLIER MANUFACTURER CONTRACTOR SUBCONTRACTOR ARCHITECT STRUCTURALENGINEER COSTENGINEER CLIENT BUILDINGOWNER '
             'BUILDINGOPERATOR MECHANICALENGINEER ELECTRICALENGINEER PROJECTMANAGER FACILITIESMANAGER CIVILENGINEER '
             'COMMISSIONINGENGINEER ENGINEER OWNER CONSULTANT CONSTRUCTIONMANAGER FIELDCONSTRUCTIONMANAGER RESELLER '
             'USERDEFINED', ''),
    'address': ('OFFICE SITE HOME DISTRIBUTIONPOINT USERDEFINED', ''),
    'state': ('READWRITE READONLY LOCKED READWRITELOCKED READONLYLOCKED', ''),
    'change': ('NOCHANGE MODIFIED ADDED DELETED', 'MODIFIEDADDED MODIFIEDDELETED NOTDEFINED'),
    'space': ('SPACE PARKING GFA INTERNAL EXTERNAL USERDEFINED NOTDEFINED', 'BERTH'),
    'wall': ('MOVABLE PARAPET PARTITIONING PLUMBINGWALL SHEAR SOLIDWALL STANDARD POLYGONAL ELEMENTEDWALL USERDEFINED '
             'NOTDEFINED', 'RETAININGWALL WAVEWALL'),
    'slab': ('FLOOR ROOF LANDING BASESLAB USERDEFINED NOTDEFINED', 'APPROACH_SLAB PAVING WEARING SIDEWALK TRACKSLAB'),
    'roof': ('FLAT_ROOF SHED_ROOF GABLE_ROOF HIP_ROOF HIPPED_GABLE_ROOF GAMBREL_ROOF MANSARD_ROOF BARREL_ROOF RAINBOW_ROOF '
             'BUTTERFLY_ROOF PAVILION_ROOF DOME_ROOF FREEFORM USERDEFINED NOTDEFINED', ''),
    'shading': ('JALOUSIE SHUTTER AWNING USERDEFINED NOTDEFINED', ''),
    'opening': ('OPENING RECESS USERDEFINED NOTDEFINED', ''),
    'door': ('DOOR GATE TRAPDOOR USERDEFINED NOTDEFINED', 'BOOM_BARRIER TURNSTILE'),
    'dooroperation': ('SINGLE_SWING_LEFT SINGLE_SWING_RIGHT DOUBLE_DOOR_SINGLE_SWING DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT '
                      'DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT DOUBLE_SWING_LEFT DOUBLE_SWING_RIGHT DOUBLE_DOOR_DOUBLE_SWING '
                      'SLIDING_TO_LEFT SLIDING_TO_RIGHT DOUBLE_DOOR_SLIDING FOLDING_TO_LEFT FOLDING_TO_RIGHT '
                      'DOUBLE_DOOR_FOLDING REVOLVING ROLLINGUP SWING_FIXED_LEFT SWING_FIXED_RIGHT USERDEFINED NOTDEFINED', ''),
    'window': ('WINDOW SKYLIGHT LIGHTDOME USERDEFINED NOTDEFINED', ''),
    'partitioning': ('SINGLE_PANEL DOUBLE_PANEL_VERTICAL DOUBLE_PANEL_HORIZONTAL TRIPLE_PANEL_VERTICAL TRIPLE_PANEL_BOTTOM '
                     'TRIPLE_PANEL_TOP TRIPLE_PANEL_LEFT TRIPLE_PANEL_RIGHT TRIPLE_PANEL_HORIZONTAL USERDEFINED NOTDEFINED', ''),
    'unit': ('ABSORBEDDOSEUNIT AMOUNTOFSUBSTANCEUNIT AREAUNIT DOSEEQUIVALENTUNIT ELECTRICCAPACITANCEUNIT ELECTRICCHARGEUNIT '
             'ELECTRICCONDUCTANCEUNIT ELECTRICCURRENTUNIT ELECTRICRESISTANCEUNIT ELECTRICVOLTAGEUNIT ENERGYUNIT FORCEUNIT '
             'FREQUENCYUNIT ILLUMINANCEUNIT INDUCTANCEUNIT LENGTHUNIT LUMINOUSFLUXUNIT LUMINOUSINTENSITYUNIT '
             'MAGNETICFLUXDENSITYUNIT MAGNETICFLUXUNIT MASSUNIT PLANEANGLEUNIT POWERUNIT PRESSUREUNIT RADIOACTIVITYUNIT '
             'SOLIDANGLEUNIT THERMODYNAMICTEMPERATUREUNIT TIMEUNIT VOLUMEUNIT USERDEFINED', ''),
    'derivedunit': ('ANGULARVELOCITYUNIT AREADENSITYUNIT COMPOUNDPLANEANGLEUNIT DYNAMICVISCOSITYUNIT HEATFLUXDENSITYUNIT '
                    'INTEGERCOUNTRATEUNIT ISOTHERMALMOISTURECAPACITYUNIT KINEMATICVISCOSITYUNIT LINEARVELOCITYUNIT '
                    'MASSDENSITYUNIT MASSFLOWRATEUNIT MOISTUREDIFFUSIVITYUNIT MOLECULARWEIGHTUNIT SPECIFICHEATCAPACITYUNIT '
                    'THERMALADMITTANCEUNIT THERMALCONDUCTANCEUNIT THERMALRESISTANCEUNIT THERMALTRANSMITTANCEUNIT '
                    'VAPORPERMEABILITYUNIT VOLUMETRICFLOWRATEUNIT ROTATIONALFREQUENCYUNIT TORQUEUNIT MOMENTOFINERTIAUNIT '
                    'LINEARMOMENTUNIT LINEARFORCEUNIT PLANARFORCEUNIT MODULUSOFELASTICITYUNIT SHEARMODULUSUNIT '
                    'LINEARSTIFFNESSUNIT ROTATIONALSTIFFNESSUNIT MODULUSOFSUBGRADEREACTIONUNIT ACCELERATIONUNIT CURVATUREUNIT '
                    'HEATINGVALUEUNIT IONCONCENTRATIONUNIT LUMINOUSINTENSITYDISTRIBUTIONUNIT MASSPERLENGTHUNIT '
                    'MODULUSOFLINEARSUBGRADEREACTIONUNIT MODULUSOFROTATIONALSUBGRADEREACTIONUNIT PHUNIT ROTATIONALMASSUNIT '
                    'SECTIONAREAINTEGRALUNIT SECTIONMODULUSUNIT SOUNDPOWERLEVELUNIT SOUNDPOWERUNIT SOUNDPRESSURELEVELUNIT '
                    'SOUNDPRESSUREUNIT TEMPERATUREGRADIENTUNIT TEMPERATURERATEOFCHANGEUNIT THERMALEXPANSIONCOEFFICIENTUNIT '
                    'WARPINGCONSTANTUNIT WARPINGMOMENTUNIT USERDEFINED', ''),
    'prefix': ('EXA PETA TERA GIGA MEGA KILO HECTO DECA DECI CENTI MILLI MICRO NANO PICO FEMTO ATTO', ''),
    'siname': ('AMPERE BECQUEREL CANDELA COULOMB CUBIC_METRE DEGREE_CELSIUS FARAD GRAM GRAY HENRY HERTZ JOULE KELVIN LUMEN LUX '
               'METRE MOLE NEWTON OHM PASCAL RADIAN SECOND SIEMENS SIEVERT SQUARE_METRE STERADIAN TESLA VOLT WATT WEBER', ''),
}
# names of enumeration values in the library that differ from the schema's token
NAMES = {'Clien': 'CLIENT', 'ComissionEngineer': 'COMMISSIONINGENGINEER', 'Couloumb': 'COULOMB',
         'DegreeCelcius': 'DEGREE_CELSIUS', 'Comples': 'COMPLEX'}
OWN_NAMES = {('ShadingDeviceTypeEnum', 'Parking'): 'JALOUSIE'}
LOGICAL = {'.T.', '.F.', '.U.'}
FAMILY = {'T': 'text', 'R': 'real', 'I': 'integer', '#': 'reference', 'B': 'logical', 'V': 'typed value', 'E': 'token'}


def norm(kinds):
    """kinds of text -> families"""
    out = set()
    for k in kinds:
        if k.startswith("T"):
            out.add('T')
        elif k in ('R', 'R.'):
            out.add('R')
        elif k.startswith('.'):
            out.add('B' if k in LOGICAL or k in ('.TRUE.', '.FALSE.', '.UNKNOWN.') else 'E')
        elif k.startswith('V'):
            out.add('V')
        elif k.startswith('['):
            inner = set()
            depth, cur = 0, ''
            for ch in k[1:-1] + ' ':
                if ch == ' ' and depth == 0:
                    if cur:
                        inner |= norm({cur})
                    cur = ''
                    continue
                depth += {'[': 1, ']': -1}.get(ch, 0)
                cur += ch
            out.add('[%s]' % '|'.join(sorted(inner)))
        else:
            out.add(k)
    return out


def show(fam):
    def one(k):
        if k.startswith('['):
            return 'list of ' + '/'.join(one(x) for x in k[1:-1].split('|'))
        return {'?': '$', **FAMILY}.get(k, k)
    return ', '.join(one(k) for k in sorted(fam))


def p23(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    L = schema.Layout(I)
    types = {F.show(t): t for t in rule_text.parse_types(F)}
    ents = rule_text.entity_types(F)
    enums = {}
    for t in ents:
        n = F.show(t)
        if n not in RECORDS and n != 'Dummy':
            # an entity the table does not know yet
            ctx.undecided('layout', n, 'not in the schema table')
    for n, (kw, spec) in RECORDS.items():
        t = types.get(n)
        if t is None:
            ctx.undecided('layout', n, 'no such type')
            continue
        ctx.count('record types')
        want = [a.split(':', 1) for a in spec.split()]
        try:
            I.lens = (2,)
            if n in VALUES:
                layouts = list(values(L, t))
            else:
                layouts = [L.record(t)]
        except Undecided as e:
            ctx.undecided('layout', n, str(e))
            continue
        for lay in layouts:
            if lay is None:
                ctx.bad('keyword', n, '%s is not printed as a record' % n)
                continue
            k, attrs, tail = lay
            if k != kw:
                ctx.bad('keyword', n, '%s is printed as %s, the schema says %s' % (n, k, kw))
            else:
                ctx.good('keyword', '%s -> %s' % (n, kw))
            if tail != (')' if n in VALUES else ');'):
                ctx.bad('layout', n + ' end', '%s ends with %r' % (n, tail))
            if len(attrs) != len(want):
                ctx.bad('layout', n, '%s is printed with %d attributes, the schema has %d' % (n, len(attrs), len(want)))
                continue
            for (name, kind), ps in zip(want, attrs):
                key = '%s.%s' % (n, name)
                if n not in VALUES:
                    if len(ps) != 1 or isinstance(ps[0], str):
                        ctx.bad('layout', key, '%s: %r is printed in place of the attribute' % (key, ps))
                        continue
                    path = ps[0].v.name if isinstance(ps[0].v, Sym) else repr(ps[0].v)
                    if path.split('.')[-1] != name:
                        ctx.bad('layout', key, '%s: attribute %d is %s in the schema, %s is printed' % (
                            n, want.index([name, kind]) + 1, name, path))
                        continue
                    ctx.good('layout', '%s is printed at position %d' % (path, want.index([name, kind]) + 1))
                try:
                    ks = ps if n in VALUES else L.kind([p for p in ps], 0)
                except Undecided as e:
                    ctx.undecided('kind', key, str(e))
                    continue
                kind_check(ctx, key, kind, ks, enums)
    for n, t in types.items():
        if F.adts[t[1]]['kind'] == 'Enum':
            tokens(ctx, I, n, t)
    ctx.floor('record types', 78)
    ctx.floor('layout', 430)
    ctx.floor('token', 230)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['the tables of vlib/rule_schema.py state the IFC4 schema for the entities of the library',
                        'readers agree with the printed layout (P01)']
    return ('Abstract interpretation of the printing code of every entity: the printed record is cut into its attributes, '
            'each a hole that names the attribute it comes from; keyword, number, order and names are compared with the schema '
            'table, the kinds of text every attribute can be printed as (and the tokens of enumerations) with the schema '
            'type of the attribute; every enumeration value is compared with the token of its name.')


def values(L, t):
    """layouts of a typed value: the inner text may be printed in several ways"""
    I = L.I
    out = {}
    for ps in schema.texts(I, t, lambda u: u != t and L.nt(u)):
        ps = list(ps)
        if not isinstance(ps[0], str) or '(' not in ps[0] or not isinstance(ps[-1], str):
            yield None
            continue
        kw, rest = ps[0].split('(', 1)
        ps[0] = rest
        i = ps[-1].rfind(')')
        tail = ps[-1][i:]
        ps[-1] = ps[-1][:i]
        out.setdefault((kw.strip(), tail), set()).update(L.kind([p for p in ps if p != ''], 0))
    for (kw, tail), ks in out.items():
        yield kw, [ks], tail


def kind_check(ctx, key, kind, ks, enums):
    opt = kind[0] in '?*'
    derived = kind[0] == '*'
    kind = kind[1:] if opt else kind
    fam = norm(ks)
    base = fam - {'?', '*', 'in place'}
    tok = {k for k in ks if k.startswith('.')}
    if kind.startswith('E:'):
        must, may = (set(W(x)) for x in ENUMS[kind[2:]])
        if base - {'E'}:
            ctx.bad('kind', '%s as %s' % (key, show(base)), '%s is written as %s, the schema wants a token of the enumeration %s' % (key, show(base), kind[2:]))
        else:
            have = {x.strip('.') for x in tok}
            if must - have:
                ctx.bad('kind', key + ' missing', '%s: there is no value for the schema tokens %s' % (key, sorted(must - have)))
            elif have - must - may:
                ctx.bad('kind', key + ' extra', '%s: tokens that the schema does not have: %s' % (key, sorted(have - must - may)))
            else:
                ctx.good('kind', '%s: %d tokens' % (key, len(have)))
    else:
        want = kind.replace('[[R]]', '[[R]]')
        if base != {want}:
            ctx.bad('kind', '%s as %s' % (key, show(base)), '%s is written as %s, the schema wants %s' % (key, show(base), show({want})))
        else:
            if kind == 'R' and 'R.' not in ks:
                ctx.bad('kind', key + ' point', '%s: whole numbers are written without a decimal point' % key)
            elif kind == 'B' and tok - LOGICAL:
                ctx.bad('logical', 'logical notation', 'logical values are written as %s instead of .T. .F. .U.' % sorted(tok - LOGICAL))
            else:
                ctx.good('kind', '%s: %s' % (key, show(base)))
    if derived:
        if '*' in ks:
            ctx.good('absent')
        else:
            ctx.bad('absent', key + ' derived', '%s is derived in the schema but cannot be written as *' % key)
    elif opt:
        if '?' in ks:
            ctx.good('absent')
        else:
            ctx.bad('absent', key + ' absent', '%s is optional in the schema but cannot be absent' % key)


def tokens(ctx, I, n, t):
    """every enumeration value is written with the token of its name"""
    F = I.F
    seen = {}
    for v in F.variants(t):
        if F.fields(t, v):
            return
        try:
            ts = schema.texts(I, t, lambda u: False, make=lambda J, v=v: Obj(t[1], v, {}))
        except Undecided as e:
            ctx.undecided('token', '%s.%s' % (n, v), str(e))
            continue
        if len(ts) != 1 or len(ts[0]) != 1 or not isinstance(ts[0][0], str):
            ctx.undecided('token', '%s.%s' % (n, v), 'printed as %r' % (ts,))
            continue
        s = ts[0][0]
        if n in ('DimensionCount', 'BoolPrimitive'):
            want = {'One': '1', 'Two': '2', 'Three': '3'}.get(v)
            plain = lambda x: re.sub('[^A-Za-z0-9]', '', x).upper()
            good = s == want if want else s.strip('.') in (v.upper(), v[0].upper())
        else:
            plain = lambda x: re.sub('[^A-Za-z0-9]', '', x).upper()
            good = plain(s) == plain(OWN_NAMES.get((n, v), NAMES.get(v, v))) and s[0] == s[-1] and s[0] in ".'"
        if not good:
            ctx.bad('token', '%s.%s' % (n, v), '%s::%s is written as %s' % (n, v, s))
        elif s in seen:
            ctx.bad('token', '%s.%s' % (n, v), '%s::%s and ::%s are both written as %s' % (n, v, seen[s], s))
        else:
            ctx.good('token', '%s::%s -> %s' % (n, v, s))
        seen[s] = v
