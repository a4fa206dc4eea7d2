"""C03: byte offsets and characters of the analysed text agree."""
from common import case, any_text, runs_of, word_starts, Grammar

ASSUMPTIONS = [
    'the categories of a character come from a stand-in that gives each distinct character an arbitrary set of categories',
    'a run of characters is delimited from the start of the text: it ends where no category is shared by all of it',
]
REQUIRED = ['word start', 'run', 'types of a span']


def agree(S, n, widths, cats, equal=None, pairs=True):
    inp, text, sets, cats, C = any_text(S, n, widths, cats, equal)
    raw = inp.get_byte_text()
    owner = []           # character of each byte
    start = []           # first byte of each character
    for i in range(n):
        start.append(len(owner))
        owner += [i] * len(text[i].encode('utf-8'))
    total = len(owner)
    start.append(total)
    S.check(S.same(raw, text.encode('utf-8')), 'the byte text is the encoded text')
    own = owner + [n]
    runs = runs_of(S, sets, cats)
    bow = word_starts(S, sets, cats, C)
    S.observe('bow', [inp.can_bow(b) for b in range(total)])
    for b in range(total):
        i = owner[b]
        S.check(S.same(S.and_(inp.can_bow(b)), S.and_(b == start[i], bow[i])), 'a word may start exactly at the permitted characters')
        S.reach('word start')
        S.check(inp.get_char_category_continuous_length(b) == start[runs[i]] - b, 'the run ends where no category is shared')
        S.reach('run')
        got = inp.get_char_category_types(b)
        S.check(S.and_(*[S.same(c in got, c in sets[i]) for c in cats]), 'the categories at a byte are those of its character')
        nxt = total
        for k in range(total - 1, b, -1):
            if k == start[owner[k]] and bow[owner[k]]:
                nxt = k
        S.check(inp.get_word_candidate_length(b) == nxt - b, 'the candidate length reaches the next word start')
        for k in range(0, n + 2):
            want = 0 if k == 0 else start[min(n, i + k)] - b
            S.check(inp.get_code_points_offset_length(b, k) == want, 'characters ahead are counted in bytes')
    for b in range(total + 1):
        S.check(inp.get_offset_text_length(b) == own[b], 'a byte offset belongs to its character')
    if not pairs:
        return
    for b in range(total):
        for e in range(b, total + 1):
            i, j = own[b], own[e]
            S.check(S.same(inp.get_substring(b, e), text[i:j]), 'a substring is that of the characters')
            S.check(inp.code_point_count(b, e) == j - i, 'code points are counted')
            if j <= i:
                continue
            got = inp.get_char_category_types(b, e)
            if start[runs[i]] < e:
                want = [False for c in cats]
            else:
                want = [S.and_(*[c in sets[k] for k in range(i, j)]) for c in cats]
            S.check(S.and_(*[S.same(c in got, w) for c, w in zip(cats, want)]), 'the categories of a span are those all its characters share')
            S.reach('types of a span')
    for b in range(total):
        got = inp.get_char_category_types(b)
        S.check(S.and_(*[S.same(c in got, c in sets[own[b]]) for c in cats]), 'the categories at a byte are those of its character')


def long(S, pattern, places):
    """A long text of known characters of one category, with any categories at
    the given places."""
    m = S.load('sudachipy.utf8inputtextbuilder')
    C = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    cats = [C.ALPHA, C.KANJI]
    text = pattern
    n = len(text)
    sets = {}
    for p in places:
        sets[text[p]] = S.subset('cat%d' % p, cats)
        S.assume(S.or_(*[c in sets[text[p]] for c in cats]))
        S.assume(text.count(text[p]) == 1)
    rest = {C.ALPHA}
    every = [(sets[c] if c in sets else rest).copy() for c in text]
    inp = m.UTF8InputTextBuilder(text, Grammar(lambda cp: sets.get(chr(cp), rest))).build()
    at = [0]
    for c in text:
        at.append(at[-1] + len(c.encode('utf-8')))
    runs = runs_of(S, every, cats)
    bow = word_starts(S, every, cats, C)
    nxt = [n] * n
    for i in range(n - 2, -1, -1):
        nxt[i] = i + 1 if bow[i + 1] else nxt[i + 1]
    for i in range(n):
        S.check(S.same(S.and_(inp.can_bow(at[i])), bow[i]), 'a word may start exactly at the permitted characters')
        S.check(inp.get_char_category_continuous_length(at[i]) == at[runs[i]] - at[i], 'the run ends where no category is shared')
        S.check(inp.get_word_candidate_length(at[i]) == at[nxt[i]] - at[i], 'the candidate length reaches the next word start')
        S.check(inp.get_offset_text_length(at[i]) == i, 'a byte offset belongs to its character')
        for k in (1, 2, n // 3, n // 2, n - i, n):
            S.check(inp.get_code_points_offset_length(at[i], k) == at[min(n, i + k)] - at[i], 'characters ahead are counted in bytes')
    for i in range(0, n, n // 8):
        for j in range(i + 1, n + 1, n // 9):
            S.check(S.same(inp.get_substring(at[i], at[j]), text[i:j]), 'a substring is that of the characters')
            S.check(inp.code_point_count(at[i], at[j]) == j - i, 'code points are counted')
            got = inp.get_char_category_types(at[i], at[j])
            for c in cats:
                want = S.and_(*[c in every[k] for k in range(i, j)]) if j <= runs[i] else False
                S.check(S.same(c in got, want), 'the categories of a span are those all its characters share')
    S.reach('word start')
    S.reach('run')
    S.reach('types of a span')


def limits(S):
    inp, text, sets, cats, C = any_text(S, 2, [1, 2, 3, 4], ['DEFAULT'])
    total = len(inp.get_byte_text())
    b, e = S.int('b', -1, total + 1), S.int('e', -1, total + 1)
    try:
        inp.get_substring(b, e)
    except IndexError:
        S.check(S.or_(b < 0, e > total, b > e), 'a valid range has a substring')
        return
    S.check(S.and_(b >= 0, e <= total, b <= e), 'an invalid range is refused')


def cases(tier):
    q = tier == 'quick'
    out = [
        case('any-2', agree, '2 distinct characters of any width, each with any set of 3 categories',
             args=dict(n=2, widths=[1, 2, 3, 4], cats=['DEFAULT', 'ALPHA', 'GREEK'])),
        case('letters-3', agree, '3 distinct characters of width 1 and 3, any sets of ALPHA, CYRILLIC and KANJI',
             args=dict(n=3, widths=[1, 3], cats=['ALPHA', 'CYRILLIC', 'KANJI'])),
        case('greek-3', agree, '3 distinct characters of width 2 and 4, any sets of GREEK and KATAKANA',
             args=dict(n=3, widths=[2, 4], cats=['GREEK', 'KATAKANA'])),
        case('runs-4', agree, '4 distinct characters of width 3, any sets of KANJI, KANJINUMERIC, NUMERIC',
             args=dict(n=4, widths=[3], cats=['KANJI', 'KANJINUMERIC', 'NUMERIC'], pairs=False)),
        case('equal', agree, '3 characters, first and last equal, any sets of ALPHA, KANJI',
             args=dict(n=3, widths=[1, 3], cats=['ALPHA', 'KANJI'], equal=(0, 2))),
        case('types-4', agree, '4 distinct characters of width 1, any sets of 2 categories', args=dict(n=4, widths=[1], cats=['KANJI', 'ALPHA'])),
        case('long', long, '150 letters of width 1 to 4, four of them with any sets of ALPHA and KANJI',
             args=dict(pattern='ab\u03b1' * 13 + '0' + 'a\U0001d41a' * 20 + '1' + 'bb\u3042' * 22 + '23', places=[39, 80, 147, 148])),
        case('long-bytes', long, '290 letters of width 1, two of them with any sets of ALPHA and KANJI',
             args=dict(pattern='0' + 'a' * 287 + '12', places=[0, 288, 289])),
        case('bow-2', agree, '2 distinct characters of width 1, any sets of ALPHA, NOOOVBOW and KANJI',
             args=dict(n=2, widths=[1], cats=['ALPHA', 'NOOOVBOW', 'KANJI'])),
        case('limits', limits, '2 characters of any width, all ranges -1..9'),
    ]
    if not q:
        out += [
            case('any-3', agree, '3 distinct characters of any width, any sets of 3 categories',
                 args=dict(n=3, widths=[1, 2, 3, 4], cats=['DEFAULT', 'ALPHA', 'GREEK'])),
            case('runs-5', agree, '5 distinct characters of width 1 or 3, any sets of ALPHA, KANJI',
                 args=dict(n=5, widths=[1, 3], cats=['ALPHA', 'KANJI'])),
            case('letters-4', agree, '4 distinct characters of width 2, any sets of ALPHA, GREEK, CYRILLIC',
                 args=dict(n=4, widths=[2], cats=['ALPHA', 'GREEK', 'CYRILLIC'])),
        ]
    return out
