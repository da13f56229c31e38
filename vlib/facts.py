"""Loads the driver's dump of the resolved program (THIR) and answers
questions about types, impls and functions."""
import json
import re


class Facts:
    def __init__(self, path):
        with open(path) as f:
            raw = json.load(f)
        self.raw = raw
        self._intern = {}
        self.tys = self._types(raw['tys'])
        self.adts = {}
        for a in raw['adts']:
            a['vs'] = [(v, [(n, self.tys[t], p) for n, t, p in fs]) for v, fs in a['vs']]
            a['vmap'] = {v: fs for v, fs in a['vs']}
            self.adts[a['d']] = a
        self.traits = {t['d']: t for t in raw['traits']}
        self.traititems = {}
        for t in raw['traits']:
            for n, k, hasdef in t['items']:
                self.traititems[k] = (t['d'], n, hasdef)
        self.impls = {}
        self.impls_by_trait = {}
        self.inherent = []
        for i in raw['impls']:
            i['self'] = self.tys[i['self']]
            i['ta'] = [self.tys[t] for t in i['ta']]
            i['preds'] = [(t, [self.tys[x] for x in a]) for t, a in i['preds']]
            i['imap'] = {n: (k, (self.tys[e] if e is not None else None)) for n, k, e in i['items']}
            self.impls[i['d']] = i
            if i['tr']:
                self.impls_by_trait.setdefault(i['tr'], []).append(i)
            else:
                self.inherent.append(i)
        self.fns = {}
        for f in raw['fns']:
            f['ins'] = [self.tys[t] for t in f['ins']]
            f['out'] = self.tys[f['out']]
            self.fns[f['d']] = f
        self.consts = {c['d']: c for c in raw['consts']}
        self._rescache = {}

    # ---- types -------------------------------------------------------
    def _types(self, raw):
        out = [None] * len(raw)

        def conv(i):
            if out[i] is not None:
                return out[i]
            t = raw[i]
            k = t[0]
            out[i] = ('prim', '?rec')
            if k == 'adt':
                r = ('adt', t[1], tuple(conv(a) for a in t[2]))
            elif k == 'ref':
                r = ('ref', conv(t[1]), t[2])
            elif k == 'ptr':
                r = ('ptr', conv(t[1]))
            elif k == 'array':
                r = ('array', conv(t[1]), t[2])
            elif k == 'slice':
                r = ('slice', conv(t[1]))
            elif k == 'tuple':
                r = ('tuple', tuple(conv(a) for a in t[1]))
            elif k == 'fndef':
                f = t[1]
                r = ('fndef', f['d'], tuple(conv(a) for a in f['a']), f.get('n'), f.get('tr'), f.get('impl'))
            elif k == 'fnptr':
                r = ('fnptr', tuple(conv(a) for a in t[1]), conv(t[2]))
            else:
                r = tuple(t)
            r = self._intern.setdefault(r, r)
            out[i] = r
            return r

        for i in range(len(raw)):
            conv(i)
        return out

    def subst(self, t, s):
        if not s:
            return t
        k = t[0]
        if k == 'param':
            return s.get(t[1], t)
        if k == 'adt':
            if not t[2]:
                return t
            return ('adt', t[1], tuple(self.subst(a, s) for a in t[2]))
        if k == 'ref':
            return ('ref', self.subst(t[1], s), t[2])
        if k in ('ptr', 'slice'):
            return (k, self.subst(t[1], s))
        if k == 'array':
            return (k, self.subst(t[1], s), t[2])
        if k == 'tuple':
            return (k, tuple(self.subst(a, s) for a in t[1]))
        if k == 'fndef':
            return (k, t[1], tuple(self.subst(a, s) for a in t[2])) + t[3:]
        return t

    def unify(self, pat, t, b):
        if pat[0] == 'param':
            if pat[1] in b:
                return b[pat[1]] == t
            b[pat[1]] = t
            return True
        if pat == t:
            return True
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k == 'adt':
            if pat[1] != t[1]:
                return False
            return all(self.unify(x, y, b) for x, y in zip(pat[2], t[2]))
        if k in ('ref', 'ptr', 'slice', 'array'):
            return self.unify(pat[1], t[1], b)
        if k == 'tuple':
            return len(pat[1]) == len(t[1]) and all(self.unify(x, y, b) for x, y in zip(pat[1], t[1]))
        return False

    def concrete(self, t):
        k = t[0]
        if k in ('param', 'alias', 'other'):
            return False
        if k in ('adt',):
            return all(self.concrete(a) for a in t[2])
        if k == 'tuple':
            return all(self.concrete(a) for a in t[1])
        if k in ('ref', 'ptr', 'slice', 'array'):
            return self.concrete(t[1])
        return True

    def sizes(self):
        """whole numbers above 2 the crate compares or counts with: places where its behaviour may depend on the length of a list"""
        if getattr(self, '_sizes', None) is None:
            found = {}

            def walk(e, where):
                if isinstance(e, list):
                    for x in e:
                        walk(x, where)
                elif isinstance(e, dict):
                    if e.get('k') == 'Lit' and e.get('lk') == 'int' and isinstance(e.get('v'), int) and e['v'] > 2:
                        t = self.tys[e['t']]
                        if t[0] == 'prim' and t[1] in ('usize', 'isize', 'u64', 'i64', 'u32', 'i32', 'u16', 'u8'):
                            found.setdefault(e['v'], where)
                    f = e.get('f')
                    if e.get('k') == 'Call' and isinstance(f, dict) and f.get('n') in ('with_capacity', 'reserve', 'reserve_exact'):
                        return
                    for v in e.values():
                        walk(v, where)
            for f in list(self.fns.values()) + list(self.consts.values()):
                i = self.impls.get(f.get('impl')) if f.get('impl') else None
                src = (f.get('sp') or '').split(':')[0].split('/')[-1]
                if i and i['derived'] or src in ('ifc_uuid.rs', 'real.rs') or re.search(r'serde|ifc_uuid|parser::real', f.get('d') or ''):
                    continue
                walk(f.get('b'), f.get('p') or f.get('d'))
            self._sizes = found
        return self._sizes

    def long(self, most=20):
        """further lengths lists have to be analysed with"""
        r = set()
        for c in self.sizes():
            if c <= most:
                r |= {c, c + 1}
        return tuple(sorted(r))

    def impl_for(self, trait, targs, depth=0):
        """local impl of `trait` for the given args ([Self, ...]); (impl, bindings) or None"""
        key = (trait, tuple(targs))
        if key in self._rescache:
            return self._rescache[key]
        cands = []
        for i in self.impls_by_trait.get(trait, []):
            b = {}
            n = min(len(i['ta']), len(targs))
            if all(self.unify(i['ta'][j], targs[j], b) for j in range(n)):
                if self._preds_ok(i, b, depth):
                    cands.append((i, b))
        r = None
        if len(cands) == 1:
            r = cands[0]
        elif cands:
            # prefer the least generic impl (fewest bindings)
            cands.sort(key=lambda c: (c[0]['self'][0] == 'param', len(c[1])))
            r = cands[0]
        self._rescache[key] = r
        return r

    def _preds_ok(self, i, b, depth):
        if depth > 6:
            return True
        for tr, a in i['preds']:
            a = [self.subst(x, b) for x in a]
            if not self.concrete(a[0]):
                continue
            if tr == i['tr'] and a == [self.subst(x, b) for x in i['ta']]:
                continue
            if not self.implements(tr, a, depth + 1):
                return False
        return True

    STD_ANY = {'std::marker::Sized', 'std::marker::Send', 'std::marker::Sync', 'std::marker::MetaSized', 'std::any::Any',
               'std::marker::PointeeSized'}

    def implements(self, tr, a, depth=0):
        if tr in self.STD_ANY or not a:
            return True
        if self.impl_for(tr, a, depth):
            return True
        s = a[0]
        if tr in self.traits:
            return False
        if tr == 'std::convert::AsRef':
            t = s
            while t[0] == 'ref':
                t = t[1]
            return t == ('prim', 'str') or t == ('adt', 'std::string::String', ())
        if tr == 'std::convert::Into':
            if len(a) > 1 and a[0] == a[1]:
                return True
            return len(a) > 1 and self.implements('std::convert::From', [a[1], a[0]], depth + 1)
        if tr == 'std::iter::IntoIterator':
            return s[0] in ('array', 'slice') or (s[0] == 'adt' and s[1].startswith('std::')) or (
                s[0] == 'ref' and self.implements(tr, [s[1]], depth + 1)) or s[0] in ('alias', 'closure')
        if s[0] == 'adt' and s[1].startswith('::'):
            return False
        return True

    # ---- helpers -------------------------------------------------------
    def show(self, t, d=0):
        k = t[0]
        if d > 5:
            return '..'
        if k == 'adt':
            n = t[1].split('::')[-1]
            return n + ('<' + ','.join(self.show(a, d + 1) for a in t[2]) + '>' if t[2] else '')
        if k == 'ref':
            return '&' + ('mut ' if t[2] else '') + self.show(t[1], d + 1)
        if k in ('prim', 'param'):
            return t[1]
        if k == 'tuple':
            return '(' + ','.join(self.show(a, d + 1) for a in t[1]) + ')'
        if k in ('slice', 'array'):
            return '[' + self.show(t[1], d + 1) + ']'
        return k + ':' + str(t[1])

    def adt(self, d):
        return ('adt', d, ())

    def find_adt(self, suffix):
        r = [k for k in self.adts if k == suffix or k.endswith('::' + suffix)]
        if len(r) != 1:
            raise KeyError('ADT %s: %r' % (suffix, r))
        return r[0]

    def fields(self, t, variant=None):
        """[(name, type)] of a (variant of a) local ADT type"""
        a = self.adts[t[1]]
        fs = a['vmap'][variant] if variant else a['vs'][0][1]
        s = dict(zip(a['gen'], t[2]))
        return [(n, self.subst(ft, s)) for n, ft, _ in fs]

    def variants(self, t):
        return [v for v, _ in self.adts[t[1]]['vs']]

    def is_enum(self, t):
        return t[0] == 'adt' and t[1] in self.adts and self.adts[t[1]]['kind'] == 'Enum'
