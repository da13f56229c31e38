"""Documented domains of the unknown texts in the round-trip rules.

A text is described by the set of characters it may contain (a finite partition
of all characters: every ASCII character, the umlauts of the encoding table, and
representatives of the rest) and whether it may be empty."""
from interp import *
import grammar as G

SPECIAL = 'ÄäÖöÜüß'
ANY = G.ANYTEXT
NOQUOTE = ANY - {"'"}
SAFE = ANY - set(SPECIAL) - {"'", '\\'}
WS = set(' \t\r\n')


def hole(I, name, chars, empty=True, trimmed=False):
    I.data[('cls', name)] = (frozenset(chars), empty)
    if trimmed:
        I.data[('trimmed', name)] = True
    return Hole(Sym(name, STRING), 'display')


def encoded_string(I, name):
    """text c1 text c2 text, the c being characters of the encoding table"""
    n = I.choose(3, name + ':specials')
    ps = [hole(I, name + '#0', SAFE)]
    for i in range(n):
        ps.append(SPECIAL[I.choose(len(SPECIAL), name + ':special%d' % i)])
        ps.append(hole(I, name + '#%d' % (i + 1), SAFE))
    return Txt(tuple(ps))


def dummy_string(I, name, shapes=(0, 1, 2)):
    """raw entry text: plain, with a quoted string, with a comment"""
    plain = ANY - WS - set(";'/")
    k = shapes[I.choose(len(shapes), name + ':shape')]
    a = hole(I, name + '#a', plain, empty=False)
    if k == 0:
        return Txt((a,))
    b = hole(I, name + '#b', plain, empty=False)
    if k == 1:
        return Txt((a, "'", hole(I, name + '#q', NOQUOTE), "'", b))
    return Txt((a, '/*', hole(I, name + '#c', ANY - {'*', '/'}), '*/', b))


def header_string(I, name):
    ident = frozenset('ABCZabcz0189_-.:éÄ')
    if '.descriptions[' in name:
        if name.endswith('.name'):
            return Txt((hole(I, name, ident),))
        return Txt((hole(I, name, ANY - set(",]'"), empty=False, trimmed=True),))
    return Txt((hole(I, name, NOQUOTE),))
