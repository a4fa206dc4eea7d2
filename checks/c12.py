"""C12: parts of speech and connection costs survive the build."""
from common import case, row, csv_text, header, quiet, system_bytes, layout, matrix_text, number, POS

ASSUMPTIONS = ['ids in a matrix definition are below the sizes it declares']
REQUIRED = ['same tuple', 'other tuple', 'cell given', 'cell not given', 'cell changed', 'line of a cell', 'line of a comment', 'line without three columns']

ANYCHAR = ((1, 0x5B), (0x5D, 0xD7FF), (0xE000, 0x10FFFF))
PLAIN = ((0x23, 0x5B), (0x5D, 0xD7FF), (0xE000, 0x10FFFF))


def built(S, entries, matrix_stream, name='b.dic', kind='SYSTEM_DICT_VERSION_2'):
    """Entries straight through the row parser."""
    b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    for e in entries:
        w = b.parse_line(e)
        b.add_to_trie(w.headword, len(b.entries))
        b.entries.append(w)
    out = S.open(S.path(name), 'wb')
    out.write(header(S, kind))
    b.write_grammar(matrix_stream, out)
    b.write_lexicon(out)
    out.close()
    return b


def opened(S, name='b.dic'):
    B = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary
    return B.from_system_dictionary(S.path(name))


def pos(S, shapes, dom):
    """Entries whose parts of speech have components of the given lengths
    (a string stands for itself)."""
    rows = []
    want = []
    for i, shape in enumerate(shapes):
        p = []
        for j, k in enumerate(shape):
            if isinstance(k, str):
                p.append(k)
            elif isinstance(k, tuple):
                p.append(k[0] + S.text('p%d_%d' % (i, j), k[1], dom))
            else:
                p.append(S.text('p%d_%d' % (i, j), k, dom))
        want.append(p)
        rows.append(row('a%d' % i, pos=p))
    b = built(S, rows, S.stream(matrix_text(1, 1, [(0, 0, 7)])))
    d = opened(S)
    g = d.grammar
    ids = []
    for i, p in enumerate(want):
        k = d.lexicon.get_word_info(i).pos_id
        ids.append(k)
        S.check(S.same(list(g.get_part_of_speech_string(k)), p), 'a part of speech reads as it was written')
        S.check(g.get_part_of_speech_id(p) == k, 'looking a part of speech up gives its id')
        for j in range(i):
            same = S.same(want[j], p)
            if same:
                S.reach('same tuple')
            else:
                S.reach('other tuple')
            S.check(S.same(ids[j] == k, same), 'equal parts of speech share one id')
    n = 0
    for i in range(len(ids)):
        if all(ids[j] != ids[i] for j in range(i)):
            n += 1
    S.check(g.get_part_of_speech_size() == n, 'the table holds each part of speech once')
    S.check(g.get_connect_cost(0, 0) == 7, 'the matrix is read behind the table')
    S.observe('ids', ids)


def many(S, n, digits, dom, again=1):
    """Very many parts of speech, then any of their numbers."""
    rows = [row('a%d' % i, pos=['p%0*d' % (digits, i)] + ['*'] * 5) for i in range(n)]
    want = list(range(n))
    picks = []
    for k in range(again):
        t = S.text('t%d' % k, digits, dom)
        rows.append(row('b%d' % k, pos=['p' + t] + ['*'] * 5))
        picks.append(t)
    built(S, rows, S.stream(matrix_text(1, 1, [(0, 0, 7)])))
    d = opened(S)
    g = d.grammar
    size = n
    for k, t in enumerate(picks):
        v = 0
        for c in S.codes(t):
            v = v * 10 + (c - 48)
        got = d.lexicon.get_word_info(n + k).pos_id
        S.check(S.same(list(g.get_part_of_speech_string(got)), ['p' + t] + ['*'] * 5), 'a part of speech reads as it was written')
        if v < n:
            S.reach('same tuple')
            S.check(got == v, 'equal parts of speech share one id')
        else:
            S.reach('other tuple')
            if all(not S.same(t, o) for o in picks[:k]):
                S.check(got == size, 'the table holds each part of speech once')
                size += 1
    for i in (0, 1, n // 2, n - 1):
        S.check(d.lexicon.get_word_info(i).pos_id == i, 'equal parts of speech share one id')
        S.check(list(g.get_part_of_speech_string(i)) == rows[i][5:11], 'a part of speech reads as it was written')
    S.check(g.get_part_of_speech_size() == size, 'the table holds each part of speech once')
    S.check(g.get_connect_cost(0, 0) == 7, 'the matrix is read behind the table')


def wide(S, left, right, places):
    """A cell given in a large matrix, another one changed."""
    l, r = S.choice('cell', places)
    t, v = number(S, 'v', 3, S.bool('n'))
    built(S, [row('a', left=left - 1, right=right - 1, cost=-5)], S.stream('%d %d\n%d %d %s\n' % (left, right, l, r, t)))
    g = opened(S).grammar
    x, y = S.choice('other', places)
    c = S.int('c', -32768, 32767)
    probes = set(places) | {(0, 0), (left - 1, right - 1), (left // 2, right // 2), (left - 1, 0), (0, right - 1)}
    for a, b in sorted(probes):
        if (a, b) == (l, r):
            S.reach('cell given')
        else:
            S.reach('cell not given')
        S.check(g.get_connect_cost(a, b) == (v if (a, b) == (l, r) else 0), 'a pair of ids has the cost the definition gives')
    g.set_connect_cost(x, y, c)
    S.reach('cell changed')
    for a, b in sorted(probes):
        S.check(g.get_connect_cost(a, b) == (c if (a, b) == (x, y) else v if (a, b) == (l, r) else 0), 'changing one cell changes no other')


def matrix(S, left, right, lines, digits=2, junk=False):
    """A matrix definition of `lines` cells at arbitrary places, repeated
    places included."""
    text = '%d %d\n' % (left, right)
    cells = []
    for i in range(lines):
        l = S.int('l%d' % i, 0, left - 1)
        r = S.int('r%d' % i, 0, right - 1)
        t, v = number(S, 'c%d' % i, digits, S.bool('n%d' % i))
        if junk and i == 1:
            text += '# 0 0 9\n\n   \n0 0\n  # 0 0 9\n0\n'
        text += str(l) + ' ' + str(r) + ' ' + t + '\n'
        cells.append((l, r, v))
    built(S, [row('a'), row('b', cost=-5)], S.stream(text))
    d = opened(S)
    g = d.grammar
    for x in range(left):
        for y in range(right):
            want = 0
            given = False
            for l, r, v in cells:
                hit = S.and_(l == x, r == y)
                given = S.or_(given, hit)
                want = S.ite(hit, v, want)
            if given:
                S.reach('cell given')
            else:
                S.reach('cell not given')
            S.check(g.get_connect_cost(x, y) == want, 'a pair of ids has the cost the definition gives')
    S.check(d.lexicon.get_cost(1) == -5, 'the words are read behind the matrix')
    S.check(S.same(d.lexicon.get_word_info(1).surface, 'b'), 'the words are read behind the matrix')


def free(S, length, alphabet):
    """A matrix definition with a free line between two cells."""
    line = S.text('line', length, alphabet)
    words = []
    w = ''
    for i in range(length):
        c = line[i]
        if c == ' ' or c == '\t':
            if len(w):
                words.append(w)
            w = ''
        else:
            w = w + c
    if len(w):
        words.append(w)
    comment = len(words) > 0 and words[0][0] == '#'
    cells = {(0, 0): 3, (1, 1): 4}
    if not comment and len(words) >= 3:
        # only lines of three numbers are claimed
        S.assume(len(words) == 3)
        for w in words:
            for c in w:
                S.assume(c != '#')
        l, r, v = [sum((ord(c) - 48) * 10 ** (len(w) - 1 - k) for k, c in enumerate(w)) for w in words]
        S.assume(S.and_(l < 2, r < 2))
        cells[(S.concrete(l), S.concrete(r))] = v
        S.reach('line of a cell')
    elif comment:
        S.reach('line of a comment')
    else:
        S.reach('line without three columns')
    built(S, [row('a')], S.stream('2 2\n0 0 3\n' + line + '\n1 1 4\n'))
    g = opened(S).grammar
    if (1, 1) in cells:
        cells[(1, 1)] = 4
    for x in range(2):
        for y in range(2):
            S.check(g.get_connect_cost(x, y) == cells.get((x, y), 0), 'a line gives a cell when it has three columns and is no comment')


def change(S, left, right):
    cells = [(i, j, 10 * i + j + 1) for i in range(left) for j in range(right)]
    S.put('m.dic', system_bytes(S, [row('a')], matrix_text(left, right, cells)))
    d = opened(S, 'm.dic')
    g = d.grammar
    x, y = S.int('x', 0, left - 1), S.int('y', 0, right - 1)
    c = S.int('c', -32768, 32767)
    g.set_connect_cost(x, y, c)
    S.reach('cell changed')
    for l, r, v in cells:
        S.check(g.get_connect_cost(l, r) == S.ite(S.and_(x == l, y == r), c, v), 'changing one cell changes no other')
    S.check(S.same(d.lexicon.get_word_info(0).surface, 'a'), 'changing one cell changes no other')


def cases(tier):
    q = tier == 'quick'
    star = ['*'] * 4
    long = 'x' * 126
    out = [
        case('two', pos, 'two words, a component of one character of any kind each', args=dict(shapes=[[1] + star + ['*'], [1] + star + ['*']], dom=ANYCHAR)),
        case('three', pos, 'three words, components of 1 character out of three', args=dict(shapes=[['*', 1] + star] * 3, dom='ab*')),
        case('all-six', pos, 'a word whose six components are of one character of any kind', args=dict(shapes=[[1] * 6], dom=PLAIN)),
        case('lengths', pos, 'components of 0, 1, 2 and 3 characters', args=dict(shapes=[['', 1, 2, '*', 3, '*'], ['*', 2, 1, '*', '', '*']], dom=PLAIN)),
        case('long', pos, 'components of 126 and one or two further characters of any kind', args=dict(shapes=[[(long, 1), '*', (long, 2)] + star[:3]], dom=PLAIN)),
        case('longer', pos, 'a component of 300 and one further characters', args=dict(shapes=[[('x' * 300, 1)] + star + ['*'], ['*'] * 6], dom=PLAIN)),
        case('stars', pos, 'three words, any component of one character, or none', args=dict(shapes=[['a', 1, '*', 1, 1, 1], ['a', '*', 1, '*', '*', 1], ['a', '*', '*', 1, 'b', '*']], dom='b*')),
        case('shift', pos, 'components that would merge when joined carelessly', args=dict(shapes=[[1, 2] + star, [2, 1] + star], dom='a*,')),
    ]
    for l, r in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1)):
        out.append(case('matrix-%dx%d' % (l, r), matrix, 'a %dx%d matrix with two cells given, at any places' % (l, r),
                        args=dict(left=l, right=r, lines=2, junk=(l == 2))))
        out.append(case('change-%dx%d' % (l, r), change, 'any cell of a %dx%d matrix changed to any cost' % (l, r), args=dict(left=l, right=r)))
    out.append(case('matrix-empty', matrix, 'a 2x2 matrix with no cell given', args=dict(left=2, right=2, lines=0)))
    out.append(case('matrix-line', free, 'a matrix definition with a free line of 5 characters out of five between two cells', args=dict(length=5, alphabet='01 \t#')))
    out.append(case('matrix-range', matrix, 'a 1x2 matrix with one cell of 5 digits below 32768', args=dict(left=1, right=2, lines=1, digits=4)))
    out.append(case('many', many, '1101 parts of speech, then one of them or another', args=dict(n=1101, digits=4, dom='01')))
    out.append(case('many-300', many, '300 parts of speech, then two of them or others', args=dict(n=300, digits=3, dom='03', again=2)))
    out.append(case('wide', wide, 'a 600x3 matrix', args=dict(left=600, right=3, places=[(0, 2), (1, 0), (127, 1), (255, 2), (256, 0), (599, 1)])))
    out.append(case('large', wide, 'a 300x300 matrix', args=dict(left=300, right=300, places=[(0, 299), (299, 299), (63, 218), (64, 218), (255, 255), (299, 1)])))
    out.append(case('wide-2', wide, 'a 3x600 matrix', args=dict(left=3, right=600, places=[(0, 127), (1, 0), (2, 128), (0, 255), (1, 256), (2, 511)])))
    if not q:
        out += [
            case('four', pos, 'four words, components of 1 character', args=dict(shapes=[['*', 1] + star] * 4, dom='abc')),
            case('two-each', pos, 'two words, two components of one character of any kind each', args=dict(shapes=[[1, '*', 1] + star[:3]] * 2, dom=PLAIN)),
            case('matrix-3', matrix, 'a 3x4 matrix with three cells given', args=dict(left=3, right=4, lines=3)),
            case('matrix-4', matrix, 'a 4x3 matrix with three cells given', args=dict(left=4, right=3, lines=3, digits=3)),
            case('change-4x5', change, 'any cell of a 4x5 matrix changed', args=dict(left=4, right=5)),
        ]
    return out
