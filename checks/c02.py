"""C02: input rewriting keeps a correct map back to the original text."""
from common import case, Grammar

ASSUMPTIONS = ['replacement strings are not empty (an empty one has no place in the map)',
               'the grammar is a stand-in whose only category is DEFAULT']
REQUIRED = ['mapped', 'refused']
W3 = ((0x3041, 0xD7FF), (0xE000, 0xFFFF))


def width(S, t):
    """UTF-8 length of one character (forks over the four lengths)."""
    c = S.codes(t)[0]
    if c < 0x80:
        return 1
    if c < 0x800:
        return 2
    if c < 0x10000:
        return 3
    return 4


def verify(S, b, text, ref, pos):
    S.check(S.same(b.get_original_text(), text), 'the original text is unchanged')
    S.check(S.same(b.get_text(), ref), 'the rewritten text is that of string replacement')
    inp = b.build()
    S.check(S.same(inp.get_original_text(), text), 'the original text is unchanged')
    S.check(S.same(inp.get_text(), ref), 'the rewritten text is that of string replacement')
    at = 0
    got = []
    for i in range(len(ref)):
        w = width(S, ref[i])
        for k in range(w):
            got.append(inp.get_original_index(at + k))
            S.check(got[-1] == pos[i], 'a place of the rewritten text maps to its place in the original')
        at += w
    S.check(at == len(inp.get_byte_text()), 'the byte text has the length of the encoded text')
    got.append(inp.get_original_index(at))
    S.check(got[-1] == pos[-1], 'a place of the rewritten text maps to its place in the original')
    S.check(got[-1] == len(text), 'the end maps to the end')
    if ref:
        S.check(got[0] == 0, 'the start maps to the start')
    for x, y in zip(got, got[1:]):
        S.check(x <= y, 'the map is non-decreasing')
    S.observe('map', got)
    S.reach('mapped')


def edits(S, n, k, rmax, dom, rdom):
    m = S.load('sudachipy.utf8inputtextbuilder')
    cat = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    text = S.text('t', n, dom)
    b = m.UTF8InputTextBuilder(text, Grammar(lambda c: {cat.DEFAULT}))
    ref, pos = text, list(range(n + 1))
    for e in range(k):
        ln = len(ref)
        i, j = S.choice('span%d' % e, [(i, j) for i in range(ln) for j in range(i + 1, ln + 1)])
        r = S.text('r%d' % e, S.choice('len%d' % e, range(1, rmax + 1)), rdom)
        b.replace(i, j, r)
        ref = ref[:i] + r + ref[j:]
        pos = pos[:i] + [pos[i]] + [pos[j]] * (len(r) - 1) + pos[j:]
    verify(S, b, text, ref, pos)


def long(S, rlen, before, after, dom):
    """A replacement that is much longer than what it replaces."""
    m = S.load('sudachipy.utf8inputtextbuilder')
    cat = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    n = before + 2 + after
    text = S.text('t', n, dom)
    b = m.UTF8InputTextBuilder(text, Grammar(lambda c: {cat.DEFAULT}))
    r = 'الله عليه وسلم صلى عليه'[:rlen - 1] + S.char('r', dom)
    w = S.choice('width', [1, 2])
    b.replace(before, before + w, r)
    ref = text[:before] + r + text[before + w:]
    pos = list(range(before + 1)) + [before + w] * (rlen - 1) + list(range(before + w, n + 1))
    if S.bool('second'):        # within the replacement
        b.replace(before + 3, before + 5, 'x')
        ref = ref[:before + 3] + 'x' + ref[before + 5:]
        del pos[before + 4]
    verify(S, b, text, ref, pos)


def bounds(S, n, grown=0):
    """Ranges that are empty, inverted or outside the text (perhaps one that
    was rewritten already)."""
    m = S.load('sudachipy.utf8inputtextbuilder')
    cat = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    text = S.text('t', n, W3)
    b = m.UTF8InputTextBuilder(text, Grammar(lambda c: {cat.DEFAULT}))
    ref, pos = text, list(range(n + 1))
    if grown:
        at = S.choice('at', range(n))
        b.replace(at, at + 1, 'ab' * grown)
        ref = text[:at] + 'ab' * grown + text[at + 1:]
        pos = pos[:at + 1] + [at + 1] * (2 * grown - 1) + pos[at + 1:]
    elif grown is None:
        b.replace(0, n - 1, 'a')
        ref, pos = 'a' + text[n - 1:], [0, n - 1, n]
    ln = len(ref)
    i, j = S.int('begin', -2, ln + 2), S.int('end', -2, ln + 3)
    r = S.text('r', S.choice('len', [1, 2]), W3)
    try:
        b.replace(i, j, r)
    except Exception:
        S.check(S.or_(i < 0, i > ln, i >= j), 'a valid range is accepted')
        verify(S, b, text, ref, pos)
        S.reach('refused')
        return
    S.check(S.and_(i >= 0, i <= ln, i < j), 'an invalid range is refused')
    if i == ln:
        return      # nothing is replaced: an insertion, outside the statement
    i, j = S.concrete(i), S.concrete(j)
    j = min(j, ln)
    verify(S, b, text, ref[:i] + r + ref[j:], pos[:i] + [pos[i]] + [pos[j]] * (len(r) - 1) + pos[j:])


def cases(tier):
    out = []
    q = tier == 'quick'
    out.append(case('any-char', edits, 'texts of 2 characters of any width, one replacement of 1-2 characters',
                    args=dict(n=2, k=1, rmax=2, dom=S_ANY, rdom=S_ANY)))
    out.append(case('any-char-3', edits, 'texts of 3 characters of any width, one replacement of 1 character',
                    args=dict(n=3, k=1, rmax=1, dom=S_ANY, rdom=W3)))
    out.append(case('two', edits, 'texts of 4 characters, 2 replacements of 1-3 characters', args=dict(n=4, k=2, rmax=3, dom=W3, rdom=W3)))
    out.append(case('three', edits, 'texts of 3 characters, 3 replacements of 1-2 characters', args=dict(n=3, k=3, rmax=2, dom=W3, rdom=W3)))
    out.append(case('bounds', bounds, 'texts of 3 characters, ranges -2..6', args=dict(n=3)))
    out.append(case('bounds-grown', bounds, 'the same on texts of 3 of which a character became four', args=dict(n=3, grown=2)))
    out.append(case('bounds-shrunk', bounds, 'the same on texts of 4 of which three characters became one', args=dict(n=4, grown=None)))
    out.append(case('long-18', long, 'a replacement of 18 characters in texts of 4', args=dict(rlen=18, before=1, after=1, dom=W3)))
    if not q:
        out.append(case('any-char-4', edits, 'texts of 3 characters of any width, 2 replacements of 1 character',
                        args=dict(n=3, k=2, rmax=1, dom=S_ANY, rdom=W3)))
        out.append(case('long', edits, 'texts of 6 characters, 2 replacements of 1-4 characters', args=dict(n=6, k=2, rmax=4, dom=W3, rdom=W3)))
        out.append(case('three-3', edits, 'texts of 3 characters, 3 replacements of 1-3 characters', args=dict(n=3, k=3, rmax=3, dom=W3, rdom=W3)))
        out.append(case('four', edits, 'texts of 2 characters, 4 replacements of 1-2 characters', args=dict(n=2, k=4, rmax=2, dom=W3, rdom=W3)))
    return out


S_ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
