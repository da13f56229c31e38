"""P17: the extractor follows the relations of the model."""
import itertools
import rule_pure
import rule_text
from interp import *
from rule_store import callm, idof, same_entry, phantom

IFCTYPE = '::traits::ifc_type::IfcType'
USIZE = ('prim', 'usize')


class Scene:
    """a model of the given entries [(label, kind, {attribute: value})] under increasing, otherwise arbitrary numbers;
    attribute values: a label (reference), a list of labels"""

    def __init__(self, J, F, by, entries):
        self.J, self.F, self.by = J, F, by
        self.ID = F.find_adt('Id')
        self.keys = {lab: Obj(self.ID, 'Id', {'0': Sym('k%d' % i, USIZE)}) for i, (lab, _, _) in enumerate(entries)}
        J.data['order'] = ['k%d' % i for i in range(len(entries))]
        self.ents = {}
        self.inner = {}
        self.given = 0
        items = []
        for lab, kind, over in entries:
            v = self.entry(lab, by[kind], over)
            self.ents[lab] = v
            items.append((self.keys[lab], v))
        DM = ('adt', F.find_adt('DataMap'), ())
        self.ifc = Obj(F.find_adt('IFC'), 'IFC', {'header': Sym('header', ('prim', '?')), 'footer': Sym('footer', ('prim', '?')),
                       'data': Obj(DM[1], 'DataMap', {'0': Map('BTreeMap', items)})})

    def entry(self, lab, ty, over):
        v = self.J.expand(self.J.sym(lab, ty))
        for n, x in over.items():
            self.put(v, ty, n, x)
        return v

    def put(self, v, ty, n, x):
        for f, t in self.F.fields(ty):
            if f == n:
                v.f[f] = self.value(t, x)
                return True
        for f, t in self.F.fields(ty):
            # attributes of a base record
            if t[0] == 'adt' and t[1] in self.F.adts and self.F.fields(t) and not t[2]:
                w = self.J.deref(v.f[f])
                inner = None if self.J.variants_of(t) is not None else self.J.expand(w) if isinstance(w, Sym) and w.ty[0] == 'adt' else w
                if isinstance(inner, Obj) and self.put(inner, t, n, x):
                    v.f[f] = inner
                    return True
        return False

    def value(self, t, x):
        """attribute value of type t: a label, None (absent), '*' (derived), 'given' (unknown),
        ('in', label) in place, a list, a value"""
        n = t[1].split('::')[-1] if t[0] == 'adt' else ''
        if n == 'OptionalParameter':
            var = 'Omitted' if x is None else 'Inherited' if x == '*' else 'Custom'
            if var != 'Custom':
                return Obj(t[1], var, {f: self.J.sym('-', ft) for f, ft in self.J.fields_of(t, var)}, t[2])
            if x == 'given':
                self.given += 1
                return Obj(t[1], var, {'0': self.J.sym('given%d' % self.given, t[2][0])}, t[2])
            return Obj(t[1], var, {'0': self.value(t[2][0], x)}, t[2])
        if n == 'IdOr':
            if isinstance(x, tuple):
                v = self.inner.get(x[1])
                if v is None:
                    v = self.inner[x[1]] = self.entry(x[1], t[2][0], x[2] if len(x) > 2 else {})
                return Obj(t[1], 'Custom', {'0': v}, t[2])
            return Obj(t[1], 'Id', {'0': self.typed(t[2][0], x)}, t[2])
        if isinstance(x, Sym):
            return x
        if isinstance(x, list):
            return Obj(t[1], t[1].split('::')[-1], {'0': Seq([self.value(t[2][0], y) for y in x])}, t[2])
        k = self.keys[x]
        if t[1] == self.ID:
            return k
        return self.typed(t[2][0], x)

    def typed(self, ty, lab):
        T = ('adt', self.F.find_adt('TypedId'), (ty,))
        fs = {n: (self.keys[lab] if ft[0] == 'adt' and ft[1] == self.ID else None) for n, ft in self.F.fields(T)}
        fs.update(phantom(self.F, T))
        return Obj(T[1], 'TypedId', fs, (ty,))

    def label(self, v):
        """label of the entry or number v"""
        v = self.J.deref(v)
        if isinstance(v, Tup):
            a, b = self.label(v.items[0]), self.label(v.items[1])
            return a if a == b else '%s paired with %s' % (a, b)
        for lab, e in list(self.ents.items()) + list(self.inner.items()):
            if isinstance(v, Obj) and v.adt == e.adt and same_entry(self.J, v, e):
                return lab
        k = idof(self.J, v) if isinstance(v, (Obj, Sym)) else None
        for lab, key in self.keys.items():
            if k is not None and self.J.order(k, key) == 0:
                return lab
        return self.J.show(v)


def p17(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    by = {F.show(t): t for t in rule_text.entity_types(F)}
    need = ['Project', 'Site', 'Building', 'Storey', 'Wall', 'WallType', 'Slab', 'SlabType', 'Window', 'OpeningElement', 'RelAggregates',
            'RelContainedInSpatialStructure', 'RelDefinesByType', 'RelVoidsElement', 'RelAssociatesMaterial', 'RelFillsElement',
            'MaterialLayerSetUsage', 'MaterialLayerSet', 'MaterialLayer', 'MaterialConstituentSet', 'MaterialConstituent']
    for n in need:
        if n not in by:
            ctx.anchor_missing('entity %s' % n)
            return ''
    try:
        EX = ('adt', F.find_adt('IfcExtractor'), ())
    except Exception:
        ctx.anchor_missing('the extractor')
        return ''
    IFCT = ('adt', F.find_adt('IFC'), ())
    conv = [im for im in F.impls_by_trait.get('std::convert::From', []) if im['self'] == EX]
    deref = [im for im in F.impls_by_trait.get('std::ops::Deref', []) if im['self'] == EX]
    if not conv or not deref:
        ctx.anchor_missing('making an extractor from a model')
        return ''

    def extractor(J, s):
        return Ref(Cell(J.run_fn(F.fns[conv[0]['imap']['from'][0]], {}, [s.ifc])), 0)

    def case(kind, key, entries, call, want, single=False):
        def run(J):
            s = Scene(J, F, by, entries)
            r = call(J, s, extractor(J, s))
            got = [s.label(r)] if single else [s.label(x) for x in J.natives_items(r)]
            return None if got == want else 'returns %s instead of %s' % (got, want)
        n = 0
        for k, r in I.paths(run):
            n += 1
            if k == 'undecided':
                ctx.undecided(kind, key, r)
            elif k == 'panic':
                ctx.bad(kind, kind, '%s: panics: %s' % (key, r))
            elif r is None:
                ctx.good(kind, key)
            else:
                ctx.bad(kind, kind, '%s on %s: %s' % (kind, key, r))
        ctx.count('paths', n)
        if not n:
            ctx.bad(kind, kind, 'no path analysed')

    def method(name):
        if I.find_method(EX, name) is None:
            ctx.anchor_missing('extractor query %s' % name)
            return None

        def call(targs, lab=None, ty=None):
            def go(J, s, ex):
                return callm(J, EX, name, targs, [ex] + ([s.typed(ty, lab)] if lab else []))
            return go
        return call

    deep = ctx.tier != 'quick'
    # what one relation relates: the asked element q or another one; lists over two wanted entries and one of another kind
    lists = [[], ['a'], ['b', 'a'], ['c'], ['a', 'c'], ['c', 'b']] + ([['a', 'b', 'c'], ['c', 'c'], ['b', 'c', 'a']] if deep else [])
    pairs = [(x, l, y, m) for x in 'qp' for l in lists for y in 'qp' for m in lists]

    def show(p):
        return 'relations %s->%s, %s->%s' % (p[0], ''.join(p[1]), p[2], ''.join(p[3]))

    def mixes(objs, r1, r2, decoys):
        """relations after, before and among the related entries"""
        yield objs + decoys + [r1, r2]
        yield [r1] + decoys[:1] + objs + [r2] + decoys[1:]

    # all projects
    q = method('projects')
    if q:
        for n in range(4 if deep else 3):
            ps = [('p%d' % i, 'Project', {}) for i in range(n)]
            for es in (ps, [('w', 'Wall', {})] + ps[:1] + [('s', 'Site', {})] + ps[1:]):
                case('projects', '%d projects' % n, es, q([]), [x[0] for x in ps])

    # aggregation
    q = method('relations_of')
    if q:
        for P, K, O in (('Project', 'Site', 'Building'), ('Building', 'Storey', 'Wall')):
            for p in pairs:
                objs = [('q', P, {}), ('p', P, {}), ('a', K, {}), ('b', K, {}), ('c', O, {})]
                rel = [('r%d' % i, 'RelAggregates', {'relating_object': x, 'related_objects': l})
                       for i, (x, l) in enumerate((p[:2], p[2:]))]
                dec = [('d1', 'RelContainedInSpatialStructure', {'relating_structure': 'q', 'related_elements': ['a', 'b']}),
                       ('d2', 'RelDefinesByType', {'relating_type': 'q', 'related_objects': ['a', 'b']})]
                want = [e for x, l in (p[:2], p[2:]) if x == 'q' for e in l if e in 'ab']
                for es in mixes(objs, rel[0], rel[1], dec):
                    case('relations_of', '%s of %s, %s' % (K, P, show(p)), es, q([by[P], by[K]], 'q', by[P]), want)

    # containment
    q = method('contained_structures')
    if q:
        for p in pairs:
            objs = [('q', 'Storey', {}), ('p', 'Storey', {}), ('a', 'Wall', {}), ('b', 'Slab', {}), ('c', 'Window', {})]
            rel = [('r%d' % i, 'RelContainedInSpatialStructure', {'relating_structure': x, 'related_elements': l})
                   for i, (x, l) in enumerate((p[:2], p[2:]))]
            dec = [('d1', 'RelAggregates', {'relating_object': 'q', 'related_objects': ['a', 'b']}),
                   ('d2', 'RelVoidsElement', {'relating_building_element': 'q', 'related_opening_element': 'b'})]
            want = [e for x, l in (p[:2], p[2:]) if x == 'q' for e in l]
            for es in mixes(objs, rel[0], rel[1], dec):
                case('contained_structures', show(p), es, q([by['Storey']], 'q', by['Storey']), want)

    # voids
    q = method('related_voids')
    if q:
        for E in ('Wall', 'Slab'):
            for x, o, y, u in itertools.product('qp', 'ab', 'qp', 'ab'):
                objs = [('q', E, {}), ('p', E, {}), ('a', 'OpeningElement', {}), ('b', 'OpeningElement', {})]
                rel = [('r%d' % i, 'RelVoidsElement', {'relating_building_element': e, 'related_opening_element': h})
                       for i, (e, h) in enumerate(((x, o), (y, u)))]
                dec = [('d1', 'RelFillsElement', {'relating_opening_element': 'a', 'related_building_element': 'q'}),
                       ('d2', 'RelAggregates', {'relating_object': 'q', 'related_objects': ['a', 'b']})]
                want = [h for e, h in ((x, o), (y, u)) if e == 'q']
                for es in mixes(objs, rel[0], rel[1], dec):
                    case('related_voids', '%s, %s%s %s%s' % (E, x, o, y, u), es, q([by[E]], 'q', by[E]), want)

    # materials and constituents
    who = [[], ['q'], ['p'], ['p', 'q'], ['q', 'p']]
    for name, kind, other in (('related_materials', 'u', 'v'), ('related_constiuents', 'v', 'u')):
        q = method(name)
        if not q:
            continue
        for (w1, m1), (w2, m2) in itertools.product(itertools.product(who, ('u1', 'u2', 'v1', 'v2')), repeat=2):
            if not deep and (w1 not in (who[1], who[2], who[3]) or w2 not in (who[0], who[1], who[4])):
                continue
            for l1, l2 in ((['a', 'b', 'a'], ['b']), (['b', 'a'], [])):
                objs = [('q', 'Wall', {}), ('p', 'Wall', {})]
                lay = [('a', 'MaterialLayer', {}), ('b', 'MaterialLayer', {}), ('x', 'MaterialConstituent', {}), ('y', 'MaterialConstituent', {}),
                       ('s1', 'MaterialLayerSet', {'material_layers': l1}), ('s2', 'MaterialLayerSet', {'material_layers': l2}),
                       ('u1', 'MaterialLayerSetUsage', {'spatial_element_structure': 's1'}),
                       ('u2', 'MaterialLayerSetUsage', {'spatial_element_structure': 's2'}),
                       ('v1', 'MaterialConstituentSet', {'material_constituents': ['xy'['ab'.index(c)] for c in l1]}),
                       ('v2', 'MaterialConstituentSet', {'material_constituents': ['xy'['ab'.index(c)] for c in l2]})]
                rel = [('r1', 'RelAssociatesMaterial', {'related_objects': w1, 'relating_material': m1}),
                       ('r2', 'RelAssociatesMaterial', {'related_objects': w2, 'relating_material': m2})]
                dec = [('d1', 'RelDefinesByType', {'related_objects': ['q'], 'relating_type': kind + '1'}),
                       ('d2', 'RelAggregates', {'relating_object': 'q', 'related_objects': ['u1', 'v1']})]
                want = []
                for w, m in ((w1, m1), (w2, m2)):
                    if m[0] == kind and 'q' in w:
                        l = l1 if m[1] == '1' else l2
                        want += l if kind == 'u' else ['xy'['ab'.index(c)] for c in l]
                for es in mixes(objs + lay, rel[0], rel[1], dec):
                    case(name, 'materials %s:%s %s:%s' % (''.join(w1), m1, ''.join(w2), m2), es, q([by['Wall']], 'q', by['Wall']), want)

    # the type of an element
    TR = '::ifc_extractor::TypeRelation'
    impls = [im for im in F.impls_by_trait.get(TR, []) if im['self'] == EX]
    if not impls:
        ctx.anchor_missing('queries for the type of an element')
    for im in impls:
        T, K = im['ta'][1], im['ta'][2]
        tn, kn = F.show(T), F.show(K)
        if tn not in by or kn not in by:
            ctx.undecided('related_type', tn, 'unknown kinds')
            continue
        key = im['imap']['related_type'][0]

        def call(J, s, ex):
            return J.run_fn(F.fns[key], {}, [ex, s.typed(by[tn], 'q')])
        for l, m, t in itertools.product(([], ['p'], ['p', 'o']), (['q'], ['p', 'q'], ['q', 'p']), (0, 1)):
            objs = [('q', tn, {}), ('p', tn, {}), ('o', tn, {}), ('t1', kn, {}), ('t2', kn, {})]
            a, b = ('r1', 'RelDefinesByType', {'related_objects': l, 'relating_type': 't1'}), \
                ('r2', 'RelDefinesByType', {'related_objects': m, 'relating_type': 't2'})
            if t:
                a, b = b, a
            dec = [('d1', 'RelAggregates', {'relating_object': 't1', 'related_objects': ['q']}),
                   ('d2', 'RelAssociatesMaterial', {'related_objects': ['q'], 'relating_material': 't1'})]
            for es in mixes(objs, a, b, dec):
                case('related_type', '%s, types of %s / %s' % (tn, ''.join(l), ''.join(m)), es, call, ['t2'], single=True)

    # more entries than a number in the program
    for n in F.long():
        many = ['a%d' % i for i in range(n)]
        for name, P, K, R, a, b in (('relations_of', 'Building', 'Storey', 'RelAggregates', 'relating_object', 'related_objects'),
                                    ('contained_structures', 'Storey', 'Wall', 'RelContainedInSpatialStructure', 'relating_structure', 'related_elements'),
                                    ('related_voids', 'Wall', 'OpeningElement', 'RelVoidsElement', 'relating_building_element', 'related_opening_element')):
            q = method(name)
            if not q:
                continue
            objs = [('q', P, {}), ('p', P, {})] + [(x, K, {}) for x in many]
            targs = {'relations_of': [by[P], by[K]]}.get(name, [by[P]])
            if name != 'related_voids':
                case(name, 'a relation of %d' % n, objs + [('r', R, {a: 'q', b: many})], q(targs, 'q', by[P]), many)
            rels = [('r%d' % i, R, {a: 'q' if i + 1 == n else 'p', b: x if name == 'related_voids' else [x]}) for i, x in enumerate(many)]
            case(name, '%d relations' % n, objs + rels, q(targs, 'q', by[P]), many[-1:])
        q = method('projects')
        if q:
            case('projects', '%d projects' % n, [(x, 'Project', {}) for x in many], q([]), many)
        for name, use, st, at, part, lay in (
                ('related_materials', 'MaterialLayerSetUsage', 'MaterialLayerSet', 'material_layers', 'MaterialLayer', True),
                ('related_constiuents', None, 'MaterialConstituentSet', 'material_constituents', 'MaterialConstituent', False)):
            q = method(name)
            if not q:
                continue
            objs = [('q', 'Wall', {})] + [('w%d' % i, 'Wall', {}) for i in range(n - 1)] + [(x, part, {}) for x in many] + [('s', st, {at: many})]
            if lay:
                objs.append(('u', use, {'spatial_element_structure': 's'}))
            rel = ('r', 'RelAssociatesMaterial', {'related_objects': ['w%d' % i for i in range(n - 1)] + ['q'], 'relating_material': 'u' if lay else 's'})
            case(name, 'a set of %d' % n, objs + [rel], q([by['Wall']], 'q', by['Wall']), many)
        for im in impls:
            tn, kn = F.show(im['ta'][1]), F.show(im['ta'][2])
            if tn not in by or kn not in by:
                continue
            objs = [('q', tn, {})] + [('w%d' % i, tn, {}) for i in range(n - 1)] + [('t1', kn, {})]
            case('related_type', '%s, a type of %d' % (tn, n), objs + [('r', 'RelDefinesByType', {
                'related_objects': ['w%d' % i for i in range(n - 1)] + ['q'], 'relating_type': 't1'})],
                lambda J, s, ex, k=im['imap']['related_type'][0], tn=tn: J.run_fn(F.fns[k], {}, [ex, s.typed(by[tn], 'q')]), ['t1'], single=True)

    # the model itself
    def body(J):
        s = Scene(J, F, by, [('q', 'Wall', {}), ('p', 'Storey', {})])
        m = J.deref(J.run_fn(F.fns[deref[0]['imap']['deref'][0]], {}, [extractor(J, s)]))
        for n in ('header', 'data', 'footer'):
            if not J.same(J.deref(J.getfield(m, n)), J.deref(J.getfield(s.ifc, n))):
                return 'the extractor shows another %s than the model it was made from' % n
    for k, r in I.paths(body):
        if k == 'undecided':
            ctx.undecided('model', 'model', r)
        elif r is None:
            ctx.good('model', 'model')
        else:
            ctx.bad('model', 'model', str(r))
    rule_pure.ordered(ctx, 'order', ('querying', 'storing'))
    for k, n in (('order', 18), ('projects', 6), ('relations_of', 200), ('contained_structures', 200), ('related_voids', 32), ('related_materials', 100),
                 ('related_constiuents', 100), ('related_type', 90)):
        ctx.floor(k, n)
    ctx.fns |= I.fn_used
    ctx.assumptions += ['BTreeMap behaves as modelled in vlib/natives.py',
                        'two relations of the kind asked for, two decoy relations and lists of up to two (thorough three) entries stand for '
                        'any number: the code treats further ones alike',
                        'references name existing entries (a loaded model)']
    return ('Abstract interpretation of every extractor query (THIR) on models whose numbers, attributes and kinds of neighbour '
            'are symbolic; relations lie before, among and after what they relate; the entries returned are compared with those the relations of the '
            'model name, in order.')
