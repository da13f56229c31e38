"""P19: reading, writing, verifying and querying depend on nothing but their arguments and change nothing else.

Effect analysis over the resolved call graph: every function of the crate, every item of another crate it mentions (called or
passed on), every static and every pointer it dereferences is classified by what it can observe or change outside its
arguments. The effects are propagated from callee to caller; each public entry point may only have those it is for."""
import re

EFFECTS = [
    ('reads a file', r'std::fs::(read|read_to_string|File::open|OpenOptions|metadata|exists)\b|std::fs::File::open\b'),
    ('writes or lists files', r'std::fs::|std::path::Path(Buf)?::(exists|is_file|is_dir|metadata|read_dir|canonicalize|try_exists|read_link)\b'),
    ('uses a stream of the process', r'std::io::(_print|_eprint|stdin|stdout|stderr)\b|std::io::stdio::'),
    ('uses the environment, network, processes or threads', r'std::(env|net|process|thread|os)::'),
    ('reads the clock', r'std::time::(SystemTime|Instant)\b|chrono::(Utc|offset::Utc)::now|chrono::(offset::)?[Ll]ocal\b|chrono::Local\b|'
                        r'std::time::(Instant|SystemTime)::'),
    ('draws a random number', r'uuid::.*::(new_v[1467]|now_v[1467])\b|rand(_core)?::|getrandom::|fastrand::|'
                              r'std::(hash|collections::hash_map)::(random::)?(RandomState|BuildHasher|DefaultHasher)\b'),
    ('keeps state of its own', r'(std|core)::sync::(Mutex|RwLock|Once|OnceLock|Condvar|Barrier|mpsc|atomic|poison|nonpoison|once_lock|mutex|rwlock|once)\b|'
                               r'(std|core)::cell::(Cell|RefCell|OnceCell|UnsafeCell|LazyCell|Ref|RefMut|once)\b|std::thread::LocalKey'),
    ('goes behind the type system', r'(std|core)::(ptr|intrinsics::transmute|mem::transmute|alloc::(alloc|dealloc|realloc))\b|'
                                    r'(std|core)::mem::(transmute|zeroed|MaybeUninit|forget)\b|.*::(get_unchecked|get_unchecked_mut|'
                                    r'from_utf8_unchecked|unwrap_unchecked|from_raw|from_raw_parts|as_mut_ptr|as_ptr)$|core::fmt::rt::Argument::.*new_pointer'),
    ('is conditional on the build or the place', r'core::panic::Location|std::panic::(Location|catch_unwind)'),
]
EFFECTS = [(n, re.compile(r)) for n, r in EFFECTS]
INTERIOR = re.compile(r'(std|core)::(cell::(Cell|RefCell|OnceCell|UnsafeCell|LazyCell)|sync::(Mutex|RwLock|OnceLock|atomic::)|'
                      r'sync::(poison::|nonpoison::|once_lock::))')
ORDER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'extract_if', 'union',
         'intersection', 'difference'}
FREE = {'any', 'all', 'count', 'len', 'is_empty', 'max', 'min', 'sum', 'max_by_key', 'min_by_key', 'sorted', 'sorted_by', 'sorted_by_key',
        'sorted_unstable', 'sorted_unstable_by_key', 'contains', 'retain', 'all_unique', 'is_subset', 'is_superset', 'k_smallest'}
ADAPT = {'map', 'filter', 'filter_map', 'copied', 'cloned', 'inspect', 'flat_map', 'flatten', 'into_iter', 'iter', 'chain', 'by_ref', 'collect',
         'unique', 'extend', 'unwrap', 'ok', 'flat_map_ok'}
HASH = 'has an unspecified order'


class Graph:
    def __init__(self, F):
        self.F = F
        self.out = {}           # function -> set of functions
        self.eff = {}           # function -> {effect: (item, place)}
        self.items = {}         # external items seen -> count
        self.calls = 0
        self.by_trait = {}      # (trait, method) -> functions
        for i in F.impls.values():
            if i['tr']:
                for n, (k, _) in i['imap'].items():
                    self.by_trait.setdefault((i['tr'], n), []).append((i, k))
        for d, (tr, n, hasdef) in F.traititems.items():
            if hasdef and d in F.fns:
                self.by_trait.setdefault((tr, n), []).append((None, d))
        for d, f in F.fns.items():
            self.fn(d, f)

    def note(self, d, effect, item, sp):
        self.eff[d].setdefault(effect, (item, sp))

    def fn(self, d, f):
        self.out[d], self.eff[d] = set(), {}
        self.here, self.sp = d, f['sp']
        self.sorts = False
        self.hashed = []
        self.inits = set()
        self.walk(f['b'].get('e') if isinstance(f['b'], dict) else f['b'], ())
        for item, sp in self.hashed:
            if not self.sorts:
                self.note(d, HASH, item, sp)

    def walk(self, e, up):
        if isinstance(e, list):
            for x in e:
                self.walk(x, up)
            return
        if not isinstance(e, dict):
            return
        F, d = self.F, self.here
        sp = e.get('sp') or self.sp
        k = e.get('k')
        t = F.tys[e['t']] if isinstance(e.get('t'), int) else None
        if k == 'Static':
            self.static(e, t, sp)
        elif k == 'Deref' and isinstance(e.get('e'), dict) and isinstance(e['e'].get('t'), int) and F.tys[e['e']['t']][0] == 'ptr' \
                and e['e'].get('k') != 'Static':
            self.note(d, 'goes behind the type system', 'a raw pointer', sp)
        elif k == 'Cast' and t and t[0] == 'prim' and self.kind(e.get('e')) in ('ptr', 'fnptr', 'fndef'):
            self.note(d, 'goes behind the type system', 'an address as a number', sp)
        elif k == 'Binary' and self.kind(e.get('l')) in ('ptr', 'fnptr'):
            self.note(d, 'goes behind the type system', 'a comparison of addresses', sp)
        elif k in ('Asm', 'ThreadLocal', 'Unsupported'):
            self.note(d, 'goes behind the type system', k, sp)
        if t is not None and t[0] == 'fndef' and k in ('Zst', 'Coerce'):
            self.use({'d': t[1], 'a': t[2], 'n': t[3], 'tr': t[4], 'impl': t[5]}, sp)
        c = e.get('f')
        if k in ('Call', 'NamedConst') and isinstance(c, dict) and 'd' in c:
            self.calls += k == 'Call'
            self.use(dict(c, a=[F.tys[x] for x in c.get('a', [])], self=F.tys[c['self']] if isinstance(c.get('self'), int) else None), sp)
            self.hash(e, c, up, sp)
        for key, v in e.items():
            if key not in ('t', 'sp', 'f') or (key == 'f' and not (isinstance(v, dict) and 'd' in v and 'k' not in v)):
                self.walk(v, up + ((e, key),))

    def kind(self, e):
        while isinstance(e, dict) and e.get('k') in ('Block', 'Use', 'Scope', 'Paren') and isinstance(e.get('e'), dict):
            e = e['e']
        return self.F.tys[e['t']][0] if isinstance(e, dict) and isinstance(e.get('t'), int) else None

    def static(self, e, t, sp):
        c = self.F.consts.get(e.get('d'))
        u = t[1] if t and t[0] in ('ref', 'ptr') else t
        if t and t[0] == 'ptr':           # static mut
            self.note(self.here, 'keeps state of its own', 'static mut %s' % e.get('d'), sp)
        elif u and mentions(u, INTERIOR):
            self.note(self.here, 'keeps state of its own', 'static %s' % e.get('d'), sp)
        if c and c.get('b') and id(c) not in self.inits:
            self.inits.add(id(c))
            self.walk(c['b'], ())           # what computes it

    def use(self, c, sp):
        F, d = self.F, c['d']
        self.items[d] = self.items.get(d, 0) + 1
        if d in F.fns:
            self.out[self.here].add(d)
        tr = c.get('tr')
        if tr and not (c.get('impl') and d in F.fns):
            selft = c['a'][0] if c.get('a') else None
            for i, k in self.by_trait.get((tr, c.get('n')), ()):
                if k in F.fns and (i is None or self.may(i['self'], selft)):
                    self.out[self.here].add(k)
        if tr == 'std::convert::Into' and len(c.get('a', ())) == 2:
            for i, k in self.by_trait.get(('std::convert::From', 'from'), ()):
                if k in F.fns and self.may(i['self'], c['a'][1]) and i['ta'] and self.may(i['ta'][-1], c['a'][0]):
                    self.out[self.here].add(k)
        if tr == 'std::string::ToString' and c.get('a'):
            for i, k in self.by_trait.get(('std::fmt::Display', 'fmt'), ()):
                if k in F.fns and self.may(i['self'], c['a'][0]):
                    self.out[self.here].add(k)
        if d.endswith('str>::parse') and c.get('a'):
            for i, k in self.by_trait.get(('std::str::FromStr', 'from_str'), ()):
                if k in F.fns and self.may(i['self'], c['a'][-1]):
                    self.out[self.here].add(k)
        if d.startswith('::') and not d.startswith('::ifc_rs_verify'):
            return
        for n, r in EFFECTS:
            if r.match(d) or r.match(d.replace('core::', 'std::', 1)):
                self.note(self.here, n, d, sp)
                break

    def may(self, pat, t):
        if t is not None and t[0] == 'param' and self.F.concrete(pat):
            f = self.F.fns[self.here]
            ps = list(f['preds']) + list(self.F.impls[f['impl']]['preds'] if f['impl'] in self.F.impls else ())
            for tr, a in ps:
                a = [self.F.tys[x] if isinstance(x, int) else x for x in a]
                if a and a[0] == t and tr in self.F.traits and not self.F.implements(tr, [pat] + a[1:]):
                    return False
            return True
        if t is None or t[0] in ('param', 'dyn', 'opaque', 'proj', 'alias', 'other') or pat[0] == 'param':
            return True
        if t[0] == 'ref' and pat[0] != 'ref':
            return self.may(pat, t[1])
        if pat[0] == 'ref' and t[0] == 'ref':
            return self.may(pat[1], t[1])
        if pat[0] != t[0]:
            return False
        return pat[1] == t[1] if pat[0] in ('adt', 'prim') else True

    def hash(self, e, c, up, sp):
        n = c.get('n')
        if n and n.startswith('sort'):
            self.sorts = True
        if n not in ORDER or not e.get('args'):
            return
        a = e['args'][0]
        t = self.F.tys[a['t']] if isinstance(a, dict) and isinstance(a.get('t'), int) else None
        while t and t[0] == 'ref':
            t = t[1]
        if not (t and t[0] == 'adt' and t[1].split('::')[-1] in ('HashMap', 'HashSet')):
            return
        # what becomes of the sequence
        for p, key in reversed(up):
            if p.get('k') == 'Call' and isinstance(p.get('f'), dict) and key in ('args', 'f'):
                m = p['f'].get('n')
                if m in FREE:
                    return
                r = self.F.tys[p['t']] if isinstance(p.get('t'), int) else None
                if m in ('collect', 'from_iter') and r and r[0] == 'adt' and r[1].split('::')[-1] in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap'):
                    return
                if m in ADAPT:
                    continue
                break
            if p.get('k') in ('Borrow', 'Deref', 'Block', 'Coerce'):
                continue
            break
        self.hashed.append(('%s of a %s' % (n, t[1].split('::')[-1]), sp))

    def reach(self, root, stop=()):
        """{effect: path}, a path is a list of functions with the item and place at its end"""
        seen, got, todo = {root: None}, {}, [root]
        while todo:
            d = todo.pop(0)
            for n, (item, sp) in self.eff.get(d, {}).items():
                if n not in got:
                    path, x = [], d
                    while x is not None:
                        path.insert(0, x)
                        x = seen[x]
                    got[n] = (path, item, sp)
            for o in sorted(self.out.get(d, ())):
                if o not in seen and o not in stop:
                    seen[o] = d
                    todo.append(o)
        self.last = len(seen)
        return got


def mentions(t, r):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'adt' and r.match(t[1]):
        return True
    return any(mentions(x, r) for x in t if isinstance(x, tuple))


PURE = {
    'std::fmt::Display': 'writing', 'std::fmt::Debug': 'writing', '::parser::IFCParse': 'reading', 'std::str::FromStr': 'reading',
    'std::cmp::PartialEq': 'comparing', 'std::cmp::Ord': 'comparing', 'std::cmp::PartialOrd': 'comparing', 'std::hash::Hash': 'comparing',
    'std::ops::Deref': 'viewing', 'std::ops::DerefMut': 'viewing', 'std::clone::Clone': 'copying',
}


def role(F, d, f):
    """what a public entry point is for"""
    i = F.impls.get(f['impl']) if f['impl'] else None
    tr = i['tr'] if i else f['trait']
    if tr in PURE:
        return PURE[tr]
    name = (tr or '').split('::')[-1]
    if tr and tr.startswith('::'):
        if name in ('IfcVerify',):
            return 'verifying'
        if name in ('IfcMappedType', 'IfcType', 'Structure', 'TransformableType', 'RelativePlacement'):
            return 'viewing'
    s = i['self'] if i else None
    sn = s[1].split('::')[-1] if s and s[0] == 'adt' else None
    if f['n'] == 'from_file' and sn == 'IFC':
        return 'loading a file'
    if sn == 'DataMap':
        return 'storing'
    if sn == 'IfcExtractor' or (sn or '').endswith('Extractor'):
        return 'querying'
    if f['sp'].split(':')[0].startswith('ifc_rs/src/ifc_builder/'):
        return 'building'
    if sn and ('Timestamp' in sn or 'GloballyUniqueId' in sn) and not f['ins']:
        return 'making an identifier or time'
    if f['ins'] and f['ins'][0][0] == 'ref' and not f['ins'][0][2]:
        return 'viewing'
    if tr == 'std::default::Default':
        return 'making a default'
    if f['out'][0] == 'adt':
        return 'making'
    return 'viewing' if not any(x[0] == 'ref' and x[2] for x in f['ins']) else 'making'


MAY = {
    'loading a file': {'reads a file'},
    'building': {'reads the clock', 'draws a random number', HASH},
    'making an identifier or time': {'reads the clock', 'draws a random number'},
    'making a default': {'reads the clock', 'draws a random number'},
    'making': {'draws a random number'},
}


def ordered(ctx, kind, roles):
    """nothing of these roles depends on the order of a hash table"""
    F = ctx.F
    g = Graph(F)
    for d, f in sorted(F.fns.items()):
        if role(F, d, f) not in roles:
            continue
        w = g.reach(d).get(HASH)
        if w is None:
            ctx.good(kind, f['p'])
        elif w[0] == [d] or not any(role(F, x, F.fns[x]) in roles for x in w[0][1:]):
            ctx.bad(kind, '%s %s' % (f['p'], HASH), '%s: %s at %s has no fixed order' % (f['p'], w[1], w[2]))


def p19(ctx):
    F = ctx.F
    G = Graph(F)
    ctx.fns |= set(F.fns)
    seen = {}
    for d, f in sorted(F.fns.items()):
        r = role(F, d, f)
        seen[r] = seen.get(r, 0) + 1
        got = G.reach(d)
        bad = {n: w for n, w in got.items() if n not in MAY.get(r, ())}
        ctx.count('functions')
        if not bad:
            ctx.good(r, f['p'])
        for n, (path, item, sp) in bad.items():
            if any(x != d and n not in MAY.get(role(F, x, F.fns[x]), ()) for x in path):
                continue                                    # reported where it happens
            ctx.bad('effect', '%s %s' % (F.fns[path[-1]]['p'], n), '%s (%s) %s: %s at %s%s' % (
                f['p'], r, n, item, sp, '' if len(path) == 1 else ', through ' + ' -> '.join(F.fns[x]['p'] for x in path[1:])))
    for a in F.adts.values():
        for v, fs in a['vs']:
            for n, t, _ in fs:
                ctx.count('fields')
                if mentions(t, INTERIOR):
                    ctx.bad('state', '%s.%s' % (a['d'], n), 'the field %s of %s can change behind a shared reference' % (n, a['d']))
                else:
                    ctx.good('field', '%s.%s' % (a['d'], n))
    for c in F.consts.values():
        if c.get('static'):
            ctx.count('statics')
    n = len(G.items)
    ctx.count('external items', sum(1 for x in G.items if not x.startswith('::')))
    ctx.count('call sites', G.calls)
    for r, k in (('reading', 100), ('writing', 100), ('verifying', 70), ('storing', 10), ('querying', 8), ('loading a file', 1), ('building', 50),
                 ('making', 150), ('viewing', 60)):
        if seen.get(r, 0) < k:
            ctx.anchor_missing('%d functions for %s instead of %d' % (seen.get(r, 0), r, k))
    src = G.reach(next(d for d, f in F.fns.items() if role(F, d, f) == 'loading a file'))
    if 'reads a file' not in src:
        ctx.anchor_missing('from_file reads no file: the call graph is incomplete')
    if 'draws a random number' not in G.reach(next(d for d, f in F.fns.items() if f['p'].endswith('IfcGloballyUniqueId::new_v4'))):
        ctx.anchor_missing('new_v4 draws no random number: the call graph is incomplete')
    return EXPLAIN


EXPLAIN = ('Every function of the crate is classified by what it is for; the effects of everything it calls or passes on (all implementations of a '
           'trait method where the receiver is not known) are propagated through the resolved call graph.')
