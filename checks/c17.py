"""C17: unit references in lexicon sources resolve to the words they name."""
from common import case, row, csv_text, header, quiet, matrix_text, system_bytes, user_bytes, full_matrix, dictionary, number, POS, NUM

ASSUMPTIONS = [
    'an inline reference names the displayed headword (the fifth column), the part of speech and the reading of a word; when several new entries agree in these, any of them is meant',
    'readings are given; numbers are in decimal digits',
]
REQUIRED = ['number', 'U number', 'inline', 'dangling', 'inline of the system dictionary', 'own before system']

OWNBIT = 1 << 28


def builder(S, user, base=None, through='lexicon'):
    if not user:
        return S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    S.put('s.dic', system_bytes(S, base, full_matrix(1)))
    if through == 'set':
        D = dictionary(S, system='s.dic')
    else:
        D = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary.from_system_dictionary(S.path('s.dic'))
    U = S.load('sudachipy.dictionarylib.userdictionarybuilder').UserDictionaryBuilder
    return U(D.grammar, D.lexicon, logger=quiet(S))


def finish(S, b, rows, user, csv=False):
    """The loaded dictionary, or None when the build stops."""
    out = S.open(S.path('b.dic'), 'wb')
    out.write(header(S, 'USER_DICT_VERSION_3' if user else 'SYSTEM_DICT_VERSION_2'))
    try:
        if csv:
            b.build([S.put('b.csv', csv_text(rows))], None if user else S.stream(matrix_text(1, 1, [])), out)
        else:
            for r in rows:
                w = b.parse_line(r)
                if w.headword:
                    b.add_to_trie(w.headword, len(b.entries))
                b.entries.append(w)
            b.write_grammar(None if user else S.stream(matrix_text(1, 1, [])), out)
            b.write_lexicon(out)
    except Exception as e:
        S.observe('error', type(e).__name__)
        out.close()
        return None
    out.close()
    B = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary
    return B.from_user_dictionary(S.path('b.dic')) if user else B.from_system_dictionary(S.path('b.dic'))


def lists(d, word):
    w = d.lexicon.get_word_info(word)
    return {15: list(w.a_unit_split), 16: list(w.b_unit_split), 17: list(w.word_structure)}


BASE = [row('x', read='X'), row('y', read='Y', pos=NUM), row('xy', read='XY'), row('x', read='Z')]
OWN = [row('p', read='P'), row('q', read='Q', pos=NUM), row('x', read='W')]


def is_number(S, t):
    """(whether it is a number or U and a number, whether it begins with U, the number)"""
    cs = S.codes(t)
    u = cs[0] == 85 if len(cs) > 1 else False
    ok = S.and_(*[S.and_(48 <= c, c <= 57) for c in cs[1:]]) if cs else False
    if cs:
        ok = S.and_(ok, S.or_(S.and_(48 <= cs[0], cs[0] <= 57), u))
    v = 0
    for i, c in enumerate(cs):
        v = v * 10 + (S.ite(cs[0] == 85, 0, c - 48) if i == 0 else c - 48)
    return ok, u, v


def numbers(S, user, col, n, dom='0123456789U', lead='', place=0):
    """Any number reference."""
    t = lead + S.text('t', n, dom)
    ok, u, v = is_number(S, t)
    ref = ['0', '1', t] if place == 2 else [t, '1'] if place == 0 else ['0', t]
    rows = OWN + [row('pq', read='R')]
    rows[3][col] = '/'.join(ref)
    limit = S.ite(u, len(rows), len(BASE)) if user else len(rows)
    good = S.and_(ok, v < limit)
    d = finish(S, builder(S, user, BASE), rows, user)
    if d is None:
        S.check(S.not_(good), 'a reference to a word is accepted')
        S.reach('dangling')
        return
    S.check(good, 'a reference to no word stops the build')
    want = S.ite(u, OWNBIT + v, v) if user else v
    if u:
        S.reach('U number')
    else:
        S.reach('number')
    got = lists(d, 3)
    exp = [0, 1][:len(ref)] if place else [0, 1]
    exp = [want, 1] if place == 0 else [0, want] if place == 1 else [0, 1, want]
    for k in (15, 16, 17):
        S.check(S.same(got[k], exp if k == col else []), 'a reference resolves to the word it names')


def inline(S, user, col, dom, through='lexicon', own=((1, 1), (1, 1)), ref=(1, 1), csv=False, posdom=None, shown=False):
    """New entries with arbitrary strings, and an arbitrary inline reference."""
    rows = []
    for i, (s, r) in enumerate(own):
        h = S.text('h%d' % i, s, dom)
        rows.append(row('ん' + h if shown else h, surface=h, read=S.text('r%d' % i, r, dom), pos=S.choice('pos%d' % i, [POS, NUM]) if posdom else POS))
    name, read = S.text('name', ref[0], dom), S.text('read', ref[1], dom)
    pos = S.choice('pos', [POS, NUM, ['x'] * 6]) if posdom else POS
    rows.append(row('zz', read='zz'))
    rows[-1][col] = ','.join([name] + list(pos) + [read]) + '/0'
    new = [S.and_(S.same(r[4], name), S.same(r[11], read), r[5:11] == pos) for r in rows]
    # among the new entries, then in the system dictionary
    old = [S.and_(S.same(r[4], name), S.same(r[11], read), r[5:11] == pos) for r in BASE] if user else []
    found = S.or_(*(new + old))
    d = finish(S, builder(S, user, BASE, through), rows, user, csv)
    if d is None:
        S.check(S.not_(found), 'a reference to a word is accepted')
        S.reach('dangling')
        return
    S.check(found, 'a reference to no word stops the build')
    got = lists(d, len(rows) - 1)
    for k in (15, 16, 17):
        if k != col:
            S.check(got[k] == [], 'a reference resolves to the word it names')
    S.check(len(got[col]) == 2 and got[col][1] == 0, 'a reference resolves to the word it names')
    g = got[col][0]
    bit = OWNBIT if user else 0
    mine = S.or_(*[S.and_(m, g == bit + i) for i, m in enumerate(new)])
    if S.or_(*new):
        S.reach('inline')
        S.check(mine, 'an inline reference resolves to a new entry of that description')
        if user and S.or_(*old):
            S.reach('own before system')
    else:
        S.reach('inline of the system dictionary')
        S.check(S.or_(*[S.and_(m, g == i) for i, m in enumerate(old)]), 'an inline reference resolves to the word of the system dictionary')


HARD = ['a/b', 'a,b', '/', ',', '\\u0041', '"', 'U1', '12', 'あ,い/う', '\\']


def escape(t):
    return ''.join('\\u%04x' % ord(c) if c in '/,"\\' else c for c in t)


def escaped(S, user, col):
    """References to words with separators in them."""
    i = S.choice('word', HARD)
    b = S.choice('braced', [False, True])
    e = escape(i)
    if b:
        e = ''.join('\\u{%x}' % ord(c) if c in '/,"\\' else c for c in i)
    pos = ['名,詞', '普/通'] + POS[2:] if False else POS
    rows = [row('k', read='K'), row(escape(i), read=escape(i) + 'r', norm='n'), row('A', read='\\u0041r'), row('zz')]
    rows[3][col] = '0/' + ','.join([e] + pos + [e + 'r']) + '/' + ('U' if user else '') + '1'
    d = finish(S, builder(S, user, BASE), rows, user)
    S.check(d is not None, 'a reference to a word is accepted')
    bit = OWNBIT if user else 0
    S.check(lists(d, 3)[col] == [0, bit + 1, bit + 1], 'a reference resolves to the word it names')
    S.check(d.lexicon.get_word_info(1).surface == i, 'the word is the one meant')
    S.reach('inline')


def mixed(S, user, n):
    """Lists of several references."""
    bit = OWNBIT if user else 0
    kinds = [('0', 0), ('U2', bit + 2), ('q,' + ','.join(NUM) + ',Q', bit + 1), ('U3', bit + 3)]
    kinds += [('xy,' + ','.join(POS) + ',XY', 2), ('3', 3), ('x,' + ','.join(POS) + ',W', bit + 2), ('x,' + ','.join(POS) + ',Z', 3)] if user else []
    kinds += [('9', None), ('U4', None), ('p,' + ','.join(NUM) + ',P', None), ('', None), ('p', None), ('*', None), ('-1', None), ('U', None)]
    rows = OWN + [row('pq', read='R')]
    cols = []
    for i in range(n):
        k = S.choice('k%d' % i, list(range(len(kinds))))
        cols.append(kinds[k])
    col = S.choice('col', [15, 16, 17])
    rows[3][col] = '/'.join(c[0] for c in cols)
    if rows[3][col] == '*':
        return
    bad = any(c[1] is None for c in cols)
    d = finish(S, builder(S, user, BASE), rows, user, csv=True)
    if d is None:
        S.check(bad, 'a reference to a word is accepted')
        S.reach('dangling')
        return
    S.check(not bad, 'a reference to no word stops the build')
    S.check(lists(d, 3) == {k: [c[1] for c in cols] if k == col else [] for k in (15, 16, 17)}, 'a reference resolves to the word it names')


def far(S, user, n):
    """References among very many entries."""
    rows = [row('w%03d' % i, read='r') for i in range(n)]
    t = S.text('t', 3, '023')
    at = S.choice('at', [0, n // 2, n - 1])
    name = 'w' + t
    ref = '%s,%s,r' % (name, ','.join(POS))
    rows[at][15] = ref + '/' + str(n - 1 if not user else 2)
    rows[at][17] = ('U' if user else '') + str(n - 1) + '/' + ref
    v = 0
    for c in S.codes(t):
        v = v * 10 + (c - 48)
    d = finish(S, builder(S, user, BASE), rows, user)
    if d is None:
        S.check(v >= n, 'a reference to a word is accepted')
        S.reach('dangling')
        return
    S.check(v < n, 'a reference to no word stops the build')
    bit = OWNBIT if user else 0
    S.check(S.same(lists(d, at), {15: [bit + v, 2 if user else n - 1], 16: [], 17: [bit + n - 1, bit + v]}), 'a reference resolves to the word it names')
    S.reach('inline')


def found(S, through, n, dom):
    """Looking a word of the system dictionary up by its description."""
    S.put('s.dic', system_bytes(S, [row('ん', surface='x', read='あ')] + BASE + [row('y', read='あ'), row('ｙ', left=-1, read='hidden')], full_matrix(1)))
    rows = [row('ん', surface='x', read='あ')] + BASE + [row('y', read='あ'), row('ｙ', left=-1, read='hidden')]
    users = ()
    if through == 'users':
        S.put('u.dic', user_bytes(S, OWN, [row('ん', surface='x', read='あ')] + BASE + [row('y', read='あ'), row('ｙ', left=-1, read='hidden')], full_matrix(1)))
        users = ('u.dic',)
    d = dictionary(S, system='s.dic', users=users)
    name, read = S.text('name', n[0], dom), S.text('read', n[1], dom)
    p = S.int('pos', 0, 1)
    w = d.lexicon.get_word_id(name, p, read)
    every = [(i, r) for i, r in enumerate(rows)] + ([(OWNBIT + i, r) for i, r in enumerate(OWN)] if users else [])
    match = [(i, S.and_(S.same(r[4], name), S.same(r[11], read), p == (0 if r[5:11] == POS else 1))) for i, r in every]
    S.check(S.or_(S.and_(w < 0, *[S.not_(m) for _, m in match]), *[S.and_(w == i, m) for i, m in match]), 'a word is found by its description')
    S.observe('found', bool(w >= 0))


def cases(tier):
    q = tier == 'quick'
    out = []
    for user in (False, True):
        u = 'user-' if user else ''
        for n in (1, 2) if q else (1, 2, 3, 4):
            out.append(case(u + 'number-%d' % n, numbers, 'a reference of %d characters of digits and U' % n, args=dict(user=user, col=15 + n % 3, n=n, place=n % 3)))
        out.append(case(u + 'number-0', numbers, 'an empty reference', args=dict(user=user, col=15, n=0, place=1)))
        for lead in ('', 'U'):
            out.append(case(u + 'big-' + lead, numbers, 'numbers of 10 digits', args=dict(user=user, col=17, n=10, dom='0123456789', lead=lead)))
            out.append(case(u + 'bit-' + lead, numbers, 'numbers of 26843545 and a digit', args=dict(user=user, col=16, n=1, dom='0123456789', lead=lead + '26843545')))
        out.append(case(u + 'inline', inline, 'two new words and a reference of characters of 3', args=dict(user=user, col=15, dom='xXz', csv=True)))
        out.append(case(u + 'inline-pos', inline, 'two new words and a reference with any of 2 parts of speech', args=dict(user=user, col=16, dom='xyX', posdom=True, own=((1, 1),))))
        out.append(case(u + 'inline-any', inline, 'a new word and a reference of any characters', args=dict(
            user=user, col=17, dom=((0x30, 0x5B), (0x5D, 0xD7FF), (0xE000, 0x10FFFF)), own=((1, 1),))))
        out.append(case(u + 'inline-shown', inline, 'two new words shown by other strings than they are found by, and a reference', args=dict(user=user, col=16, dom='xXz', shown=True)))
        out.append(case(u + 'inline-2', inline, 'a new word and a reference of two characters', args=dict(user=user, col=15, dom='xXyY', own=((2, 2),), ref=(2, 2), through='set')))
        for col in (15, 16, 17):
            out.append(case(u + 'escaped-%d' % col, escaped, 'references to words with separators', args=dict(user=user, col=col)))
        out.append(case(u + 'far', far, 'references in three places among 301 entries', args=dict(user=user, n=301)))
        out.append(case(u + 'mixed', mixed, 'any list of 2 references', args=dict(user=user, n=2)))
    out.append(case('found', found, 'a description of any characters', args=dict(through='set', n=(1, 1), dom=((0x30, 0x5B), (0x5D, 0xD7FF), (0xE000, 0x10FFFF)))))
    out.append(case('found-users', found, 'a description with a user dictionary', args=dict(through='users', n=(1, 1), dom='xyzpqXYZPQWあｙ')))
    out.append(case('found-2', found, 'a description of two and two characters', args=dict(through='users', n=(2, 2), dom='xyXY')))
    if not q:
        for user in (False, True):
            u = 'user-' if user else ''
            out.append(case(u + 'mixed-3', mixed, 'any list of 3 references', args=dict(user=user, n=3)))
            out.append(case(u + 'inline-3', inline, 'three new words and a reference', args=dict(user=user, col=16, dom='xX', own=((1, 1), (1, 1), (1, 1)), posdom=True)))
    return out
