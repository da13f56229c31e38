"""P15: what is written is an ISO 10303-21 exchange structure with the model's own data in its places."""
import re
import domains
import grammar as G
import natives
import roundtrip
import rule_load
import rule_pure
import rule_text
from interp import *

ISO_DATE = {'%Y-%m-%dT%H:%M:%S', '%FT%T', '%Y-%m-%dT%T', '%FT%H:%M:%S', '%Y-%m-%dT%H:%M:%SZ', '%FT%TZ', '%+'}
SCHEMAS = {'IFC4X3_ADD2', 'IFC4', 'IFC2X3'}


def tokens(ps):
    """text without white space and comments outside quotes; ('q', bool) marks whether a hole is in quotes"""
    out, quote = [], False
    for p in ps:
        if not isinstance(p, str):
            out.append((p, quote))
            continue
        s = ''
        for ch in p:
            if ch == "'":
                quote = not quote
            if not quote and ch in ' \t\r\n':
                continue
            s += ch
        if out and isinstance(out[-1], str):
            out[-1] += s
        elif s:
            out.append(s)
    return out, quote


def flat(ts, name):
    return ''.join(t if isinstance(t, str) else '\u2039%s\u203a' % name(t[0]) for t in ts)


def label(h):
    v = h.v
    if isinstance(v, Sym):
        if v.op == 'dtformat':
            a = v.args
            return 'date of %s' % a[0].name if isinstance(a[0], Sym) and a[-1] in ISO_DATE else 'other %s' % v.name
        return v.name.rstrip('!')
    return repr(v)


def frame(J, F, n):
    s, m = rule_load.model(J, F, n)
    IFC = ('adt', m.adt, ())
    keep = ('Header', 'Footer', 'DataMap', 'Id')
    J.data['atomic'] = lambda u: u != IFC and F.show(u) not in keep and roundtrip.implements_parse(F, u)
    f = Fmt()
    J.display(m, f)
    ts, quote = tokens(G.pieces(mktxt(f.out)))
    if quote:
        return 'a quote is not closed'
    got = flat(ts, label)

    def path(v, *names):
        for x in names:
            v = J.deref(J.getfield(J.deref(v), x))
        return v

    def h(v):
        return '\u2039%s\u203a' % label(Hole(v, 'display'))

    def name_of(v, table=None):
        x = v.var if isinstance(v, Obj) else J.variant(v)
        return x
    head = path(m, 'header')
    desc = []
    for d in J.items(path(head, 'description', 'descriptions')):
        desc.append("'%s [%s]'" % (h(path(d, 'name')), ', '.join(h(J.deref(x)) for x in J.items(path(d, 'items')))))
    fd = path(head, 'name')
    txt = lambda *ns: "'%s'" % h(path(fd, *ns))
    many = lambda f: '(%s)' % ','.join("'%s'" % h(path(x, '0')) for x in J.items(path(fd, f, '0')))
    sch = [name_of(J.deref(x)) for x in J.items(path(head, 'schema', '0'))]
    if any(x not in SCHEMAS for x in sch):
        raise Undecided('schema %s' % sch)
    date = path(fd, 'timestamp', '0')
    want = ("ISO-10303-21;HEADER;FILE_DESCRIPTION((%s),'2;1');FILE_NAME(%s,'\u2039date of %s\u203a',%s,%s,%s,%s,%s);FILE_SCHEMA((%s));ENDSEC;DATA;"
            % (','.join(desc) or "''", txt('name', '0'), date.name, many('author'), many('organization'), txt('preprocessor_version', '0'),
               txt('originating_system', '0'), txt('authorization', '0'), ','.join("'%s'" % x for x in sch)))
    for i, e in s.ents:
        k = J.deref(i.f['0'])
        want += '#%s=%s' % (h(k), h(e))
    want += 'ENDSEC;END-ISO-10303-21;'
    g, w = got.replace('\u2039', '<').replace('\u203a', '>'), want.replace('\u2039', '<').replace('\u203a', '>')
    if g != w:
        i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
        return 'written: ..%s.. instead of ..%s..' % (g[max(0, i - 30):i + 60], w[max(0, i - 30):i + 60])
    return None


# ---- records and values ---------------------------------------------------
class Bad(Exception):
    pass


def params(ts):
    """checks a list of parameters; returns the text after it"""
    s = flat(ts, lambda h: 'H')
    s = s.replace('\u2039H\u203a', '\u2039')
    i = 0

    def param(i, depth=0):
        if depth > 30:
            raise Bad('nested too deeply')
        c = s[i:i + 1]
        if c == '\u2039':
            m = re.compile(r'\.\d*([Ee][+-]?(\d+|\u2039))?').match(s, i + 1)
            return m.end() if m else i + 1
        if c == '(':
            i += 1
            if s[i:i + 1] == ')':
                return i + 1
            while True:
                i = param(i, depth + 1)
                if s[i:i + 1] == ',':
                    i += 1
                    continue
                if s[i:i + 1] == ')':
                    return i + 1
                raise Bad('a list goes on with %r' % s[i:i + 12])
        if c == "'":
            j = s.find("'", i + 1)
            if j < 0:
                raise Bad('a text does not end')
            return j + 1
        m = re.compile(r"\$|\*|#\u2039|#\d+|\.[A-Z_][A-Z0-9_]*\.|[+-]?\d+(\.\d*([Ee][+-]?\d+)?)?|\u2039").match(s, i)
        if m:
            return m.end()
        m = re.compile(r'[A-Z_][A-Z0-9_]*\(').match(s, i)
        if m:
            j = param(m.end(), depth + 1)
            if s[j:j + 1] != ')':
                raise Bad('a typed value goes on with %r' % s[j:j + 12])
            return j + 1
        raise Bad('no parameter at %r' % s[i:i + 20])
    while True:
        i = param(i)
        if s[i:i + 1] == ',':
            i += 1
            continue
        return s[i:]


def bare_texts(J, ts):
    """holes of arbitrary text outside quotes"""
    for t in ts:
        if not isinstance(t, str) and not t[1] and isinstance(t[0].v, Sym) and t[0].conv != 'nt':
            ty = t[0].v.ty
            while ty and ty[0] == 'ref':
                ty = ty[1]
            if ty in (STRING, STR):
                return t[0].v.name
    return None


def value(J, F, t):
    J.data['atomic'] = lambda u: u != t and roundtrip.implements_parse(F, u)
    v = J.sym('v', t)
    f = Fmt()
    natives._call_display(J, v, t, f)
    ps = G.pieces(mktxt(f.out))
    for p in ps:
        if not isinstance(p, str) and p.conv == 'nt':
            J.data.setdefault('subs', set()).add(J.type_of(p.v))
    subs = J.data.get('subs', set())
    ts, quote = tokens(ps)
    if quote:
        return 'a quote is not closed', subs
    b = bare_texts(J, ts)
    if b:
        return 'the text %s is written without quotes' % b, subs
    n = F.show(t)
    try:
        if ts and isinstance(ts[0], str) and re.match(r'IFC[A-Z0-9]*\(', ts[0]) and isinstance(ts[-1], str) and ts[-1].endswith(';'):
            k = ts[0].index('(') + 1
            rest = params([ts[0][k:]] + ts[1:])
            if rest != ');':
                return 'the record goes on with %r' % rest[:20], subs
        else:
            if ts == []:
                return None, subs
            rest = params(ts)
            if rest and rest != ';':
                return 'the value goes on with %r' % rest[:20], subs
    except Bad as x:
        return '%s in %s' % (x, flat(ts, label)[:120].replace('\u2039', '<').replace('\u203a', '>')), subs
    return None, subs


LETTERS = {'Ä': 0xC4, 'ä': 0xE4, 'Ö': 0xD6, 'ö': 0xF6, 'Ü': 0xDC, 'ü': 0xFC, 'ß': 0xDF}
OTHERS = (('letters of other languages', 'é'), ('symbols beyond the first plane', '\U0001F600'), ('apostrophe', "'"), ('backslash', '\\'))


def p15(ctx):
    F = ctx.F
    I = rule_text.engine(F)
    ents = rule_text.entity_types(F)
    pick = [t for t in ents if F.show(t) in ('Organization', 'Dummy')]
    if len(pick) != 2:
        ctx.anchor_missing('the entities Organization and Dummy')
        return EXPLAIN
    I.dyn_types = lambda v: pick
    for n, lens in ((0, (0, 1)), (1, (0, 1)), (2, (2,)), (3, (1,))) + (((2, (0, 1, 2)),) if ctx.tier == 'thorough' else ()):
        I.lens = lens
        for kd, r in I.paths(lambda J: frame(J, F, n)):
            ctx.count('models')
            what = '%d entries, lists of %s' % (n, lens)
            if kd == 'undecided':
                ctx.undecided('frame', what, r)
            elif kd == 'panic':
                ctx.bad('frame', 'writing a model panics', '%s: %s' % (what, r))
            elif r:
                ctx.bad('frame', 'frame', '%s: %s' % (what, r))
            else:
                ctx.good('frame', what)
    I.dyn_types = None
    I.lens = (0, 1, 2)
    todo, seen = list(rule_text.parse_types(F)), set()
    while todo:
        t = todo.pop(0)
        n = F.show(t)
        if t in seen or n in ('IFC', 'DataMap', 'Header', 'Footer', 'Dummy', 'Comma') or F.impl_for('std::fmt::Display', [t]) is None:
            continue
        seen.add(t)
        for kd, r in I.paths(lambda J: value(J, F, t)):
            ctx.count('values')
            if kd == 'ok':
                r, subs = r
                todo += [u for u in subs if u and u not in seen]
            if kd == 'undecided':
                ctx.undecided('syntax', n, r)
            elif kd == 'panic':
                ctx.bad('syntax', n, 'writing %s panics: %s' % (n, r))
            elif r:
                ctx.bad('syntax', n, '%s: %s' % (n, r))
            else:
                ctx.good('syntax', n)
    ctx.count('types', len(seen))
    rule_pure.ordered(ctx, 'order', ('writing',))
    ctx.floor('order', 90)
    ctx.floor('types', 200)
    S = ('adt', F.find_adt('StringPrimitive'), ())

    def written(J, text):
        f = Fmt()
        J.display(Obj(S[1], 'StringPrimitive', {'0': text}), f)
        return mktxt(f.out)

    def letter(key, text, want):
        for kd, r in I.paths(lambda J: written(J, text)):
            if kd == 'undecided' or kd == 'ok' and not isinstance(r, str):
                ctx.undecided('text', key, r)
            elif kd == 'panic' or r not in want:
                ctx.bad('text', key, 'the text %r is written %s instead of %s' % (text, r, want[0]))
            else:
                ctx.good('text', key)
    for c, u in LETTERS.items():
        for a, b in (('', ''), ('a', 'b'), (c, c)):
            enc = lambda s: ''.join(x if ord(x) < 128 else '\\X2\\%04X\\X0\\' % ord(x) for x in s)
            letter('letter ' + c, a + c + b, ["'%s'" % enc(a + c + b), "'\\X2\\%s\\X0\\'" % (('%04X' % u) * 3) if a == c else '', "'%s'" % (
                a + '\\X\\%02X' % u + b) if a != c else ''])
    letter('plain text', 'Wall 1 (a), #5 $*;', ["'Wall 1 (a), #5 $*;'"])
    letter('empty text', '', ["''"])
    for k, c in OTHERS:
        enc = {"'": "''", '\\': '\\\\', '\U0001F600': '\\X4\\0001F600\\X0\\'}.get(c, '\\X2\\%04X\\X0\\' % ord(c))
        letter('text with ' + k, 'a' + c, ["'a%s'" % enc, "'a\\X\\%02X'" % ord(c)])
    ctx.fns |= I.fn_used
    ctx.assumptions += ['formatting of numbers as modelled in vlib/natives.py (their notation is P23)']
    return EXPLAIN


EXPLAIN = ('The printing code is interpreted on a symbolic model; the text, white space outside quotes aside, is compared token by token with the '
           'exchange structure ISO 10303-21 prescribes, every hole with the attribute it must come from. Every printed form of every '
           'entity and value type is checked against the grammar of records and parameters.')
