"""Reference slots of entity types: where an id of another entry is stored."""
from interp import *

OPT = '::parser::optional::OptionalParameter'


class Slot:
    __slots__ = ('owner', 'key', 'path', 'target', 'pick', 'lens', 'kind', 'sym')

    def __init__(self, owner, key, path, target, pick, lens, kind):
        self.owner = owner     # entity type
        self.sym = key         # name of the unknown id number
        self.key = path        # dotted public path, without names of wrapper variants
        self.path = path
        self.target = target   # type parameter of the typed id, or None
        self.pick = pick       # {unknown enum name: variant}
        self.lens = lens       # {unknown list name: length}
        self.kind = kind       # 'single' | 'optional' | 'list'

    def __repr__(self):
        return '%s.%s' % (self.owner[1].split('::')[-1], self.path)


def short(adt):
    return adt.split('::')[-1]


def slots(F, t, name='v'):
    out = []

    def walk(ty, nm, path, pick, lens, kind, target, depth):
        if depth > 12:
            return
        k = ty[0]
        if k == 'tuple':
            for i, u in enumerate(ty[1]):
                walk(u, '%s.%d' % (nm, i), '%s.%d' % (path, i), pick, lens, kind, target, depth + 1)
            return
        if k == 'array':
            n = ty[2] if isinstance(ty[2], int) else 0
            for i in range(n):
                walk(ty[1], '%s[%d]' % (nm, i), path, pick, lens, 'list', target, depth + 1)
            return
        if k != 'adt':
            return
        n = short(ty[1])
        if ty[1].startswith('::') and n == 'Id':
            out.append(Slot(t, nm + '.0', path, target, dict(pick), dict(lens), kind))
            return
        if n in ('Box', 'Rc', 'Arc'):
            walk(ty[2][0], nm, path, pick, lens, kind, target, depth + 1)
            return
        if n in ('Vec', 'VecDeque'):
            walk(ty[2][0], nm + '[0]', path, pick, {**lens, nm: 1}, 'list', target, depth + 1)
            return
        if n == 'PhantomData':
            return
        if n == 'Option':
            walk(ty[2][0], nm + '@Some.0', path, {**pick, nm: 'Some'}, lens, 'optional', target, depth + 1)
            return
        a = F.adts.get(ty[1])
        if a is None:
            return
        if n == 'TypedId':
            target = ty[2][0]
        if a['kind'] == 'Enum':
            for v in F.variants(ty):
                if n == 'IdOr' and v == 'Custom':
                    continue      # an entity written in place: its own slots are obligations of its type
                for f, ft in F.fields(ty, v):
                    walk(ft, '%s@%s.%s' % (nm, v, f), path, {**pick, nm: v}, lens,
                         'optional' if ty[1] == OPT and kind == 'single' else kind, target, depth + 1)
            return
        wrap = n in ('TypedId', 'IfcList')
        for f, ft in F.fields(ty):
            walk(ft, '%s.%s' % (nm, f), path if wrap else (path + '.' + f if path else f), pick, lens, kind, target, depth + 1)

    walk(t, name, '', {}, {}, 'single', None, 0)
    return out


def has_ref(F, ty, depth=0, seen=()):
    """does a value of the type contain an id?"""
    if depth > 10 or ty in seen:
        return False
    seen = seen + (ty,)
    k = ty[0]
    if k == 'adt':
        n = short(ty[1])
        if ty[1].startswith('::') and n in ('Id', 'TypedId', 'IdOr'):
            return True
        if n == 'PhantomData':
            return False
        if ty[1] in F.adts:
            a = F.adts[ty[1]]
            for v, _ in a['vs']:
                if any(has_ref(F, ft, depth + 1, seen) for _, ft in F.fields(ty, v if a['kind'] == 'Enum' else None)):
                    return True
            return False
        return any(has_ref(F, x, depth + 1, seen) for x in ty[2])
    if k in ('tuple',):
        return any(has_ref(F, x, depth + 1, seen) for x in ty[1])
    if k in ('array', 'slice', 'ref'):
        return has_ref(F, ty[1], depth + 1, seen)
    return False


def context(I, slot, full):
    """make every optional part other than the slot's own absent (full=False) or present"""
    F = I.F

    def pick(J, v):
        if slot is not None and v.name in slot.pick:
            return slot.pick[v.name]
        vs = J.variants_of(v.ty)
        ref = [x for x in vs if any(has_ref(F, ft) for _, ft in J.fields_of(v.ty, x))]
        if not ref:
            if v.ty[1] == OPT or v.ty[1] == 'std::option::Option':
                return vs[-1] if full else vs[0]
            return None
        non = [x for x in vs if x not in ref]
        if full or not non:
            # ids before in-place values
            ids = [x for x in ref if x in ('Id', 'Custom', 'Some')]
            return ids[0] if ids else ref[0]
        return non[0]

    def lens_of(name):
        if slot is not None and name in slot.lens:
            return (slot.lens[name],)
        return (1,) if full else (0,)

    I.data['variant_pick'] = pick
    I.data['lens_of'] = lens_of
