"""C06: character categories are exactly what the definition file says."""
from common import case

ASSUMPTIONS = [
    'lines begin in the first column; what stands behind 0x is hexadecimal digits (with a second such number behind ..)',
    'code points and range ends have the stated numbers of hexadecimal digits',
]
REQUIRED = ['in a range', 'in no range', 'inverted', 'unknown category', 'malformed', 'no ranges']
NAMES = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC',
         'USER1', 'USER2', 'USER3', 'USER4', 'NOOOVBOW']


def hexnum(S, name, digits, dom='0123456789'):
    t = S.text(name, digits, dom)
    v = 0
    for c in S.codes(t):
        d = S.ite(c <= 57, c - 48, S.ite(c <= 70, c - 55, c - 87))
        v = v * 16 + d
    return t, v


def read(S, text):
    c = S.load('sudachipy.dictionarylib.charactercategory').CharacterCategory()
    c.read_character_definition(S.put('char.def', text))
    return c


def agree(S, cat, ranges, cp):
    """Compare at one code point (ranges: low, high, names)."""
    T = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    got = cat.get_category_types(cp)
    some = S.or_(*[S.and_(lo <= cp, cp <= hi) for lo, hi, _ in ranges])
    for n in NAMES:
        want = S.or_(*[S.and_(lo <= cp, cp <= hi) for lo, hi, ns in ranges if n in ns])
        if n == 'DEFAULT':
            want = S.or_(want, S.not_(some))
        S.check(S.same(S.and_(getattr(T, n) in got), want), 'the categories are those of the ranges that contain the code point')
    S.check(len(got) == len(set(got)), 'the categories are a set')
    if some:
        S.reach('in a range')
    else:
        S.reach('in no range')
    S.observe('got', sorted(x.name for x in got))


def ranges(S, spec, prefix, digits=1, dom='0123456789', extra='', cps=1, top=0x10FFFF, more=(), other=False):
    """spec: (kind, names) with kind 'range' or 'single'."""
    text = '# definition\n\n' + extra
    if other:       # one read before
        o = S.load('sudachipy.dictionarylib.charactercategory').CharacterCategory()
        o.read_character_definition(S.put('other.def', '0x0000..0x0040 GREEK\n0x0003 USER1\n'))
        try:        # and one that is refused at its end
            read(S, '0x0000..0x0040 USER2\n0x0003 USER3\n0x0004\n')
            S.check(False, 'a malformed definition is refused')
        except AttributeError:
            pass
        agree(S, o, [(0, 0x40, ['GREEK']), (3, 3, ['USER1'])], S.int('other', 0, 5))
    rs = []
    bad = False
    for lo, hi, names in more:
        text += '0x%X..0x%X %s\n' % (lo, hi, names)
        rs.append((lo, hi, names.split()))
    base = 0
    for c in prefix:
        base = base * 16 + int(c, 16)
    for i, (kind, names) in enumerate(spec):
        lt, lo = hexnum(S, 'lo%d' % i, digits, dom)
        lo = lo + base * 16 ** digits
        line = '0x' + prefix + lt
        hi = lo
        if kind == 'range':
            ht, hi = hexnum(S, 'hi%d' % i, digits, dom)
            hi = hi + base * 16 ** digits
            line = line + '..0x' + prefix + ht
            bad = S.or_(bad, lo > hi)
        rs.append((lo, hi, names))
        text += line + ' ' + (' ' if i % 2 else '\t').join(names) + (' # DEFAULT\n' if i == 1 else '\n')
    try:
        cat = read(S, text)
    except AttributeError:
        S.check(bad, 'a well-formed definition is accepted')
        S.reach('inverted')
        return
    S.check(S.not_(bad), 'an inverted range is refused')
    for k in range(cps):
        agree(S, cat, rs, S.int('cp%d' % k, 0, top))


def category(S, length, dom, before='', after=''):
    """One category of any name."""
    name = S.text('name', length, dom)
    T = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    known = None
    for n in NAMES:
        if n == name:
            known = n
    text = before + '0x0041..0x0043 GREEK ' + name + '\n' + after
    try:
        cat = read(S, text)
    except AttributeError:
        S.check(known is None, 'a known category is accepted')
        S.reach('unknown category')
        return
    S.check(known is not None, 'an unknown category is refused')
    agree(S, cat, [(0x41, 0x43, ['GREEK', known]), (0x43, 0x50, ['KANJI'])] if after else [(0x41, 0x43, ['GREEK', known])], S.int('cp', 0x3F, 0x52))


LINES = {
    '0x0041': 'malformed',
    '0x0041..0x0043': 'malformed',
    'ALPHA': 'malformed',
    'x': 'malformed',
    '0x0043..0x0041 ALPHA': 'inverted',
    '0x0041 BETA': 'unknown category',
    '0x0041 ALPHA BETA': 'unknown category',
    '0x0041 ALPHA #BETA': [(0x41, 0x41, ['ALPHA'])],
    '0x0041 ALPHA # BETA': [(0x41, 0x41, ['ALPHA'])],
    '0x0041..0x0043 ALPHA   ': [(0x41, 0x43, ['ALPHA'])],
    '#0x0041 ALPHA': [],
    '# x': [],
    '#': [],
    '': [],
    '   ': [],
    '\t': [],
    'ALPHA 1 1 0': [],
    'DEFAULT 0 1 0 # 0x0041 ALPHA': [],
    '0x10000..0x10FFFF KANJI': [(0x10000, 0x10FFFF, ['KANJI'])],
    '0x0041..0x0041 ALPHA': [(0x41, 0x41, ['ALPHA'])],
    '0x41..0x42\tALPHA\tNOOOVBOW': [(0x41, 0x42, ['ALPHA', 'NOOOVBOW'])],
    '0xAb USER1 USER2 USER3 USER4': [(0xAB, 0xAB, ['USER1', 'USER2', 'USER3', 'USER4'])],
}


def glued(S, spot, n, dom):
    """A comment mark and others within a line."""
    parts = ['0x0041', ' ', 'ALPHA', ' ', '#', 'x']
    t = S.text('text', n, dom)
    line = parts[:spot] + [t] + parts[spot:]
    line = ''.join(line)
    # columns between blanks, up to one that begins with a comment mark
    cols, last = [], ''
    for c in line + ' ':
        if S.or_(c == ' ', c == '\t'):
            if last:
                cols.append(last)
            last = ''
        else:
            last += c
    names = []
    for c in cols[1:]:
        if c[0] == '#':
            break
        names.append(c)
    S.assume(S.same(cols[0], '0x0041'))
    known = []
    for x in names:
        hit = [m for m in NAMES if S.same(x, m)]
        known.append(hit[0] if hit else None)
    try:
        cat = read(S, line + '\n')
    except AttributeError:
        S.check(None in known, 'a known category is accepted')
        S.reach('unknown category')
        return
    S.check(None not in known, 'an unknown category is refused')
    agree(S, cat, [(0x41, 0x41, known)], S.int('cp', 0x3F, 0x43))


def lines(S, n):
    text = ''
    rs = []
    bad = None
    for i in range(n):
        l = S.choice('line%d' % i, sorted(LINES))
        text += l + ('\n' if i + 1 < n or S.bool('end') else '')
        w = LINES[l]
        if isinstance(w, str):
            bad = bad or w
        else:
            rs += w
    if text.strip() == '' or not rs:
        S.reach('no ranges')
    try:
        cat = read(S, text)
    except AttributeError:
        S.check(bad is not None, 'a well-formed definition is accepted')
        S.reach(bad)
        return
    S.check(bad is None, 'a malformed definition is refused')
    agree(S, cat, rs, S.int('cp', 0, 0x10FFFF))


def cases(tier):
    q = tier == 'quick'
    out = [
        case('two', ranges, 'two ranges with ends of 2 digits, any code point', args=dict(spec=[('range', ['ALPHA']), ('range', ['KANJI', 'ALPHA'])], prefix='', digits=2)),
        case('twice', ranges, 'two ranges with ends of 1 digit, any two code points one after the other',
             args=dict(spec=[('range', ['ALPHA']), ('range', ['KANJI', 'ALPHA'])], prefix='', top=0x11, cps=2)),
        case('other', ranges, 'another definition read before, a range and a single code point of 1 digit',
             args=dict(spec=[('range', ['ALPHA']), ('single', ['KANJI'])], prefix='', top=0x11, other=True)),
        case('two-hex', ranges, 'a range and a single code point with ends of 2 digits and letters, any code point',
             args=dict(spec=[('range', ['ALPHA', 'NOOOVBOW']), ('single', ['KANJI'])], prefix='30', digits=2, dom='19aF')),
        case('three', ranges, 'three ranges with ends of 1 digit, any code point',
             args=dict(spec=[('range', ['ALPHA']), ('range', ['KANJI']), ('range', ['ALPHA', 'GREEK'])], prefix='4', top=0x60)),
        case('three-same', ranges, 'three ranges of one category with ends of 1 digit',
             args=dict(spec=[('range', ['ALPHA']), ('range', ['ALPHA']), ('single', ['ALPHA'])], prefix='1F60', top=0x1FFFF)),
        case('three-mixed', ranges, 'a range and two single code points', args=dict(spec=[('single', ['ALPHA']), ('range', ['ALPHA', 'KANJI']), ('single', ['KANJI'])], prefix='')),
        case('four-single', ranges, 'four single code points', args=dict(spec=[('single', ['ALPHA']), ('single', ['KANJI']), ('single', ['ALPHA']), ('single', ['GREEK'])], prefix='', dom='0123')),
        case('nested', ranges, 'a range among nine others that contain one another',
             args=dict(spec=[('range', ['KANJI'])], prefix='', more=[(1, 15, 'ALPHA'), (2, 14, 'KANJI'), (3, 13, 'SYMBOL'), (3, 12, 'ALPHA GREEK'), (4, 11, 'NUMERIC'), (5, 5, 'KANJI'), (5, 8, 'HIRAGANA'),
                                                                    (6, 11, 'USER1'), (7, 7, 'USER2')], top=0x20)),
        case('glued-name', glued, 'a category and any two of blank, comment mark, letter', args=dict(spot=3, n=2, dom=' \t#x')),
        case('glued-comment', glued, 'any two of blank, comment mark, letter before a comment', args=dict(spot=4, n=2, dom=' \t#A')),
        case('glued-end', glued, 'any three of blank, comment mark, letter behind a comment mark', args=dict(spot=5, n=3, dom=' \t#A')),
        case('two-lower', ranges, 'a range and a single code point with ends of 2 digits, letters of either case',
             args=dict(spec=[('range', ['ALPHA']), ('single', ['KANJI'])], prefix='', digits=2, dom='1afAF')),
        case('lines', lines, 'any 2 of %d lines' % len(LINES), args=dict(n=2)),
        case('name-5', category, 'any category of 5 letters', args=dict(length=5, dom=((0x21, 0x22), (0x24, 0x7E)), after='0x0043..0x0050 KANJI\n')),
        case('name-8', category, 'any category of 8 letters', args=dict(length=8, dom=((0x30, 0x39), (0x41, 0x5A)), before='# x\n\n')),
        case('name-6', category, 'any category of 6 letters', args=dict(length=6, dom='ALPHGREKSYMBO')),
    ]
    if not q:
        out += [
            case('four', ranges, 'four ranges with ends of 1 digit', args=dict(
                spec=[('range', ['ALPHA']), ('range', ['KANJI']), ('range', ['ALPHA', 'GREEK']), ('range', ['KANJI'])], prefix='', dom='012345')),
            case('three-2', ranges, 'three ranges with ends of 2 digits', args=dict(
                spec=[('range', ['ALPHA']), ('range', ['KANJI']), ('range', ['ALPHA'])], prefix='', digits=2)),
            case('lines-3', lines, 'any 3 lines', args=dict(n=3)),
            case('name-7', category, 'any category of 7 letters', args=dict(length=7, dom=((0x30, 0x39), (0x41, 0x5A)))),
            case('name-12', category, 'any category of 12 letters', args=dict(length=12, dom=((0x41, 0x5A),))),
        ]
    return out
