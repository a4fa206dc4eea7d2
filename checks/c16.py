"""C16: malformed lexicon rows are refused and valid ones accepted."""
from common import case, row, csv_text, header, quiet, matrix_text, system_bytes, full_matrix, POS

ASSUMPTIONS = [
    'numbers are an optional sign and decimal digits; blanks, underscores and digits of other scripts in a number are left out',
    'the lengths of part-of-speech components, which the rules do not mention, are short',
    'unit lists name existing words by number (what else they may hold is the business of C17)',
]
REQUIRED = ['accepted', 'too few columns', 'empty headword', 'not a number', 'too long', 'too many units', 'A unit with units']

PLAIN = ((0x23, 0x2B), (0x2D, 0x5B), (0x5D, 0x84), (0x86, 0xD7FF), (0xE000, 0x10FFFF))
NUMBER = '019-+.x*'


def try_build(S, rows, user=False, csv=False):
    """The words, or None when the build stops with an error."""
    B = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary
    if user:
        S.put('s.dic', system_bytes(S, [row('m'), row('n')], full_matrix(1)))
        D = B.from_system_dictionary(S.path('s.dic'))
        b = S.load('sudachipy.dictionarylib.userdictionarybuilder').UserDictionaryBuilder(D.grammar, D.lexicon, logger=quiet(S))
    else:
        b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    out = S.open(S.path('b.dic'), 'wb')
    out.write(header(S, 'USER_DICT_VERSION_3' if user else 'SYSTEM_DICT_VERSION_2'))
    try:
        if csv:
            b.build([S.put('b.csv', ''.join(','.join(r) + '\n' for r in rows))], None if user else S.stream(matrix_text(1, 1, [])), out)
        else:
            for r in rows:
                w = b.parse_line(r)
                if w.headword:
                    b.add_to_trie(w.headword, len(b.entries))
                b.entries.append(w)
            b.write_grammar(None if user else S.stream(matrix_text(1, 1, [])), out)
            b.write_lexicon(out)
    except Exception as e:
        S.observe('error', type(e).__name__)
        out.close()
        return None
    out.close()
    return B.from_user_dictionary(S.path('b.dic')) if user else B.from_system_dictionary(S.path('b.dic'))


def verdict(S, d, bad, label):
    if d is None:
        S.check(bad, 'a valid row is accepted')
        S.reach(label)
    else:
        S.check(S.not_(bad), 'a malformed row is refused')
        S.reach('accepted')
    S.observe('accepted', d is not None)


def columns(S, csv, user=False):
    """Any number of columns."""
    n = S.concrete(S.int('n', 0, 21))
    full = row('ab', read='r', norm='n', cost=5, syn='3') + ['extra', '']
    rows = [row('a'), full[:n]] if S.bool('second') else [full[:n], row('a')]
    d = try_build(S, rows, user, csv)
    verdict(S, d, n < 18, 'too few columns')
    if d is not None:
        k = 1 if rows[0][0] == 'a' else 0
        w = d.lexicon.get_word_info(k)
        S.check(S.same([w.surface, w.normalized_form, w.reading_form, d.lexicon.get_cost(k), list(w.synonym_group_ids)],
                       ['ab', 'n', 'r', 5, [3] if n > 18 else []]), 'the columns are stored')


def headword(S, n, csv):
    """Any headword, also none."""
    h = S.text('h', n, PLAIN)
    i = S.choice('left', ['0', '-1', '5', '-2', '+1', '-32768', '32767'])
    d = try_build(S, [row('a'), row(h, surface='s', left=i)], csv=csv)
    verdict(S, d, n == 0, 'empty headword')
    if d is not None:
        got = [w for w, _ in d.lexicon.lookup(h.encode('utf-8'), 0)]
        S.check((1 in got) == (i != '-1'), 'a word is looked up by its headword unless its left id is -1')


def is_number(S, t):
    cs = S.codes(t)
    digit = [S.and_(48 <= c, c <= 57) for c in cs]
    sign = S.or_(cs[0] == 43, cs[0] == 45) if cs else False
    if not cs:
        return False
    if len(cs) == 1:
        return digit[0]
    return S.and_(S.or_(digit[0], sign), *digit[1:])


def number_of(S, t):
    cs = S.codes(t) or [48]
    v = 0
    for i, c in enumerate(cs):
        v = S.ite(S.and_(48 <= c, c <= 57), v * 10 + (c - 48), v)
    return S.ite(cs[0] == 45, 0 - v, v)


def numeric(S, which, n, csv=False):
    """A column that should be a number."""
    t = S.text('t', n, NUMBER)
    ok = is_number(S, t)
    r = row('b')
    if which == 'form':
        ok = S.or_(ok, S.same(t, '*'))
        r[13] = t
    elif which == 'synonym':
        ok = S.or_(ok, S.same(t, '*'))
        r[18] = t
    elif which == 'synonyms':
        r[18] = '5/' + t
    else:
        r[which] = t
    if which == 'form':
        # a dictionary form is a word
        S.assume(S.implies(is_number(S, t), S.and_(number_of(S, t) >= -1, number_of(S, t) <= 1)))
    d = try_build(S, [row('a'), r], csv=csv)
    verdict(S, d, S.not_(ok), 'not a number')
    if d is not None:
        w = d.lexicon.get_word_info(1)
        if which in (1, 2, 3):
            got = [d.lexicon.get_left_id, d.lexicon.get_right_id, d.lexicon.get_cost][which - 1](1)
            S.check(got == number_of(S, t), 'the number is stored')
        elif which == 'form':
            S.check(w.dictionary_form_word_id == S.ite(is_number(S, t), number_of(S, t), -1), 'the number is stored')
        else:
            got = list(w.synonym_group_ids)
            if which == 'synonym' and S.same(t, '*'):
                S.check(got == [], 'the list is stored')
            else:
                S.check(S.same(got, [number_of(S, t)] if which == 'synonym' else [5, number_of(S, t)]), 'the list is stored')


def length(S, which, size, chars):
    """Strings about the longest allowed ones (32767 octets of headword, 32767
    UTF-16 units of the others)."""
    t = 'x' * size + S.text('t', chars, PLAIN)
    if which == 0:
        r = row(t, surface='s', norm='n', read='r')
        n = size
        for c in S.codes(t)[size:]:
            n = n + S.ite(c < 0x80, 1, S.ite(c < 0x800, 2, S.ite(c < 0x10000, 3, 4)))
    else:
        r = row('b', surface='s', norm='n', read='r')
        r[which] = t
        n = size
        for c in S.codes(t)[size:]:
            n = n + S.ite(c > 0xFFFF, 2, 1)
    d = try_build(S, [row('a'), r])
    verdict(S, d, n > 32767, 'too long')
    if d is not None:
        w = d.lexicon.get_word_info(1)
        got = {4: w.surface, 12: w.normalized_form, 11: w.reading_form}
        if which:
            S.check(S.same(got[which], t), 'the column is stored unchanged')
        else:
            S.check(w.length() == n, 'the column is stored unchanged')
        S.check(S.same(d.lexicon.get_word_info(0).surface, 'a'), 'the column is stored unchanged')


def many(S, which, lo, hi):
    """Lists about the longest allowed ones."""
    n = S.concrete(S.int('n', lo, hi))
    r = row('b')
    r[which] = '/'.join('01'[i % 2] for i in range(n))
    d = try_build(S, [row('a'), r])
    verdict(S, d, n > 127, 'too many units')
    if d is not None:
        w = d.lexicon.get_word_info(1)
        got = {15: w.a_unit_split, 16: w.b_unit_split, 17: w.word_structure, 18: w.synonym_group_ids}[which]
        S.check(list(got) == [i % 2 for i in range(n)], 'the list is stored')


def declared(S, user):
    """The kind of split unit and its lists."""
    m = S.char('mode', 'ABC*a') if S.bool('mode given') else ''
    a, b, c = (S.choice(k, ['*', '0/0', '0']) for k in 'abc')
    d = try_build(S, [row('a'), row('b', left=S.choice('left', [0, -1]), mode=m, a=a, b=b, c=c)], user)
    bad = S.and_(S.same(m, 'A'), a != '*' or b != '*')
    verdict(S, d, bad, 'A unit with units')


def kept(S, doms, csv=False):
    """Columns stay as they are."""
    t = [S.text('t%d' % i, k, ((0x20, 0x21),) + PLAIN) for i, k in enumerate(doms)]
    pos = ['p', t[3]] + ['*'] * 4
    r = row('b', surface=t[0], norm=t[1], read=t[2], pos=pos)
    d = try_build(S, [row('a'), r], csv=csv)
    S.check(d is not None, 'a valid row is accepted')
    w = d.lexicon.get_word_info(1)
    for g, x in zip((w.surface, w.normalized_form, w.reading_form), t):
        S.check(S.same(g, x if len(x) else t[0]), 'a column is stored unchanged')
    S.check(S.same(list(d.grammar.get_part_of_speech_string(w.pos_id)), pos), 'a column is stored unchanged')
    S.reach('accepted')


def cases(tier):
    q = tier == 'quick'
    out = [
        case('columns', columns, 'a row of 0 to 21 columns', args=dict(csv=False)),
        case('columns-csv', columns, 'a row of 0 to 21 columns of a source file', args=dict(csv=True)),
        case('columns-user', columns, 'a row of 0 to 21 columns of a user source file', args=dict(csv=True, user=True)),
        case('declared', declared, 'any split kind with any of 3 lists each', args=dict(user=False)),
        case('declared-user', declared, 'the same in a user dictionary', args=dict(user=True)),
        case('kept', kept, 'columns of 1, 2, 0 and 1 characters', args=dict(doms=(1, 2, 0, 1))),
    ]
    out.append(case('kept-csv', kept, 'columns of 2, 1, 1 and 2 characters of a source file', args=dict(doms=(2, 1, 1, 2), csv=True)))
    for n in (0, 1, 2):
        out.append(case('head-%d' % n, headword, 'any headword of %d characters' % n, args=dict(n=n, csv=n == 1)))
    for w in (1, 2, 3, 'form', 'synonym', 'synonyms'):
        for n in (0, 1, 2) if q else (0, 1, 2, 3, 4):
            out.append(case('number-%s-%d' % (w, n), numeric, 'a number column of %d characters of %s' % (n, NUMBER), args=dict(which=w, n=n, csv=n == 2)))
    for w in (0, 4, 11, 12):
        for size, chars in ((32766, 1), (32765, 2)) if q else ((32763, 1), (32764, 1), (32766, 1), (32767, 1), (32765, 2), (32766, 2)):
            out.append(case('length-%d-%d-%d' % (w, size, chars), length, 'column %d of %d and %d further characters' % (w, size, chars), args=dict(which=w, size=size, chars=chars)))
    for w in (15, 16, 17, 18):
        out.append(case('many-%d' % w, many, 'a list of 126 to 131 elements', args=dict(which=w, lo=126, hi=131)))
    if not q:
        for w in (15, 16, 17, 18):
            out.append(case('manymore-%d' % w, many, 'a list of 1 to 260 elements', args=dict(which=w, lo=1, hi=260)))
        out.append(case('kept-2', kept, 'columns of 2, 3, 2 and 1 characters', args=dict(doms=(2, 3, 2, 1))))
    return out
