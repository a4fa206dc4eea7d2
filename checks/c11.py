"""C11: built dictionaries return every word as it was written."""
from common import case, row, csv_text, header, quiet, number, matrix_text, full_matrix, system_bytes, build_user, build_system, POS, NUM

ASSUMPTIONS = [
    'an empty normalized form or reading stands for the surface',
    'dictionary forms and units name words of the source',
    'columns hold no carriage return (reading the source as text turns it into a line feed)',
]
REQUIRED = ['form is the surface', 'own form', 'supplementary', 'long string', 'number out of range', 'other dictionary form']

OTHER = ['動詞', '一般', '*', '*', '五段-カ行', '終止形-一般']
NOBACK = ((1, 0x5B), (0x5D, 0xD7FF), (0xE000, 0x10FFFF))
QUOTED = ((1, 9), (0x0A, 0x0C), (0x0E, 0x21), (0x23, 0x5B), (0x5D, 0xD7FF), (0xE000, 0x10FFFF))
PLAIN = ((0x23, 0x2B), (0x2D, 0x5B), (0x5D, 0x84), (0x86, 0xD7FF), (0xE000, 0x10FFFF))


def built(S, rows, name='b.dic', kind='SYSTEM_DICT_VERSION_2'):
    b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    for e in rows:
        w = b.parse_line(e)
        if w.headword:
            b.add_to_trie(w.headword, len(b.entries))
        b.entries.append(w)
    out = S.open(S.path(name), 'wb')
    out.write(header(S, kind))
    b.write_grammar(S.stream(matrix_text(1, 1, [])), out)
    b.write_lexicon(out)
    out.close()


def opened(S, name='b.dic'):
    return S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary.from_system_dictionary(S.path(name))


def octets(S, t):
    n = 0
    for c in S.codes(t):
        n = n + S.ite(c < 0x80, 1, S.ite(c < 0x800, 2, S.ite(c < 0x10000, 3, 4)))
    return n


def units(t):
    return [] if t == '*' else [int(u[1:]) | (1 << 28) if u.startswith('U') else int(u) for u in t.split('/')]


def word(S, grammar, lex, rows, i, numbers=None, pos=True, synonyms=None):
    """Word i against its row."""
    r = rows[i]
    w = lex.get_word_info(i)
    S.check(S.same(w.surface, r[4]), 'the surface is as written')
    for got, k in ((w.normalized_form, 12), (w.reading_form, 11)):
        if len(r[k]) == 0:
            S.check(S.same(got, r[4]), 'an empty form stands for the surface')
        else:
            S.check(S.same(got, r[k]), 'the normalized form and reading are as written')
            if S.same(r[k], r[4]):
                S.reach('form is the surface')
            else:
                S.reach('own form')
    S.check(w.length() == octets(S, r[0]), 'the headword length is that of the headword')
    if pos:
        S.check(S.same(list(grammar.get_part_of_speech_string(w.pos_id)), list(r[5:11])), 'the part of speech is as written')
    d = -1 if r[13] == '*' else int(r[13])
    S.check(w.dictionary_form_word_id == d, 'the dictionary form is as written')
    S.check(S.same(w.dictionary_form, rows[d if d >= 0 else i][4]), 'the dictionary form is as written')
    if d >= 0 and d != i:
        S.reach('other dictionary form')
    for got, k in ((w.a_unit_split, 15), (w.b_unit_split, 16), (w.word_structure, 17)):
        S.check(S.same(list(got), units(r[k])), 'the units are as written')
    S.check(S.same(list(w.synonym_group_ids), [] if r[18] == '*' else [int(x) for x in r[18].split('/')] if synonyms is None else synonyms[i]),
            'the synonym groups are as written')
    l, rt, c = numbers[i] if numbers else (int(r[1]), int(r[2]), int(r[3]))
    S.check(S.and_(lex.get_left_id(i) == l, lex.get_right_id(i) == rt, lex.get_cost(i) == c), 'ids and cost are as written')
    if any(bool(c > 0xFFFF) for c in S.codes(r[4])[-2:]):
        S.reach('supplementary')
    if len(r[4]) > 127 or len(r[12]) > 127 or len(r[11]) > 127:
        S.reach('long string')
    return w


def all_words(S, d, rows, order, **kw):
    for i in order:
        word(S, d.grammar, d.lexicon, rows, i, **kw)


BASE = [row('a', cost=7, syn='2/1/2', norm='エー', read='えー', left=3, right=4), row('b', cost=-3, pos=OTHER, read='', norm='b'), row('ab', cost=1, a='0/1', c='1/0/0', dform='1')]


def text_of(S, name, k, dom):
    if isinstance(k, str):
        return k
    if isinstance(k, tuple):
        return k[0] + S.text(name, k[1], dom)
    return S.text(name, k, dom)


def strings(S, surface, norm, read, head='k', dom=NOBACK, orders=((0, 1, 2, 3, 0),), alias=False):
    """A word with arbitrary strings among others."""
    h = text_of(S, 'h', head, dom)
    s = text_of(S, 's', surface, dom)
    n = text_of(S, 'n', norm, dom)
    r = text_of(S, 'r', read, dom)
    rows = [BASE[0], row(h, surface=s, norm=n, read=r, left=2, right=5, cost=-9, syn='77', a='0/2', dform='3' if alias else '*'), BASE[1],
            row('z', surface='ゼット' if not alias else s + 'Z', b='0/0', dform='1' if alias else '*', pos=OTHER)]
    built(S, rows)
    order = S.choice('order', orders) if len(orders) > 1 else orders[0]
    all_words(S, opened(S), rows, order)


def numbers(S, digits, negs):
    """Ids, costs and synonym groups over their whole range."""
    vals = []
    cols = []
    ok = True
    for i in range(2):
        v, c = [], []
        for k, name in enumerate(('l', 'r', 'c')):
            t, x = number(S, '%s%d' % (name, i), digits[k], negs[k])
            v.append(x)
            c.append(t)
            ok = S.and_(ok, -32768 <= x, x <= 32767)
        vals.append(tuple(v))
        cols.append(c)
    t, g = number(S, 'g', digits[3])
    ok = S.and_(ok, g <= 2147483647)
    rows = [row('a', left=cols[0][0], right=cols[0][1], cost=cols[0][2]), row('b', left=cols[1][0], right=cols[1][1], cost=cols[1][2], syn='5/' + t)]
    try:
        built(S, rows)
    except Exception as e:
        S.check(S.not_(ok), 'numbers of the format are accepted')
        S.observe('error', type(e).__name__)
        S.reach('number out of range')
        return
    S.check(ok, 'a number the format cannot hold is refused')
    d = opened(S)
    all_words(S, d, rows, (1, 0), numbers=vals, synonyms=[[], [5, g]])


def lists(S, options, forms, order=(0, 1, 2)):
    """Units, synonyms and dictionary forms."""
    a, b, c, y = (S.choice(k, options) for k in 'abcy')
    f = S.choice('form', forms)
    rows = [row('か', surface='カ', syn=y), row('き', a=a, b=b, c=c, dform=f, mode='C'), row('く', dform='1', norm='苦', b='0/2')]
    built(S, rows)
    all_words(S, opened(S), rows, order)


def many(S, k):
    """The longest unit and synonym lists."""
    n = S.int('n', k, 127)
    n = S.concrete(n)
    rows = [row('a', a='/'.join(['1', '0', '1'][i % 3] for i in range(n)), syn='/'.join(str(i) for i in range(n))), row('b', c='/'.join('0' * n))]
    built(S, rows)
    all_words(S, opened(S), rows, (0, 1))


def orders(S, n):
    """Every sequence of n reads."""
    rows = BASE + [row('c', surface='', norm='', read=''), row('d', surface='𠮷', dform='0', b='2/4')]
    S.put('b.dic', system_bytes(S, rows, matrix_text(1, 1, [])))
    d = opened(S)
    for i in range(n):
        k = S.int('k%d' % i, 0, len(rows) - 1)
        all_words(S, d, rows, [S.concrete(k)])


def source(S, user, lens, quoted):
    """The same through a source file."""
    dom = QUOTED if quoted else PLAIN
    t = [text_of(S, 'c%d' % i, k, dom) for i, k in enumerate(lens)]
    q = (lambda x: '"' + x + '"') if quoted else (lambda x: x)
    rows = [BASE[0], row(t[0], surface=t[1], norm=t[2], read=t[3], pos=NUM if user else OTHER), BASE[1]]
    lines = [r if i != 1 else [q(x) if k in (0, 4, 11, 12) else x for k, x in enumerate(r)] for i, r in enumerate(rows)]
    text = ''.join(','.join(r) + '\n' for r in lines)
    B = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary
    if user:
        S.put('s.dic', system_bytes(S, [row('m', pos=OTHER), row('n')], full_matrix(1)))
        D = B.from_system_dictionary(S.path('s.dic'))
        b = S.load('sudachipy.dictionarylib.userdictionarybuilder').UserDictionaryBuilder(D.grammar, D.lexicon, logger=quiet(S))
    else:
        b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    out = S.open(S.path('b.dic'), 'wb')
    out.write(header(S, 'USER_DICT_VERSION_3' if user else 'SYSTEM_DICT_VERSION_2'))
    b.build([S.put('b.csv', text)], None if user else S.stream(matrix_text(1, 1, [])), out)
    out.close()
    d = B.from_user_dictionary(S.path('b.dic')) if user else B.from_system_dictionary(S.path('b.dic'))
    S.check(d.lexicon.size() == 3, 'every row is a word')
    all_words(S, d, rows, (1, 0, 2, 1), pos=not user)


def cases(tier):
    q = tier == 'quick'
    x = 'x'
    out = [
        case('one-char', strings, 'a word with surface, normalized form and reading of any one character', args=dict(surface=1, norm=1, read=1)),
        case('two-chars', strings, 'surface of two and normalized form of two characters', args=dict(surface=2, norm=2, read='')),
        case('empty-forms', strings, 'empty normalized form and reading of 2 characters', args=dict(surface=1, norm='', read=2)),
        case('head', strings, 'a headword of two characters', args=dict(surface='h', norm='エイチ', read=1, head=2)),
        case('alias', strings, 'a word that is the dictionary form of another', args=dict(surface=2, norm='n', read='r', alias=True,
             orders=((3, 1, 0), (1, 3, 1), (0, 3, 2, 1)))),
        case('len-127', strings, 'a surface of 126 and one further characters, a normalized form of 126 and two', args=dict(surface=(x * 126, 1), norm=(x * 126, 2), read=(x * 127, 1))),
        case('len-255', strings, 'forms of 254 to 256 units', args=dict(surface=(x * 254, 1), norm=(x * 255, 1), read=(x * 254, 2))),
        case('len-head', strings, 'a headword of 126 to 130 octets', args=dict(surface='s', norm='n', read='r', head=(x * 126, 1))),
        case('len-big', strings, 'a surface of 16383 units and one further character', args=dict(surface=(x * 16383, 1), norm='n', read='r')),
        case('len-head-big', strings, 'a headword of 300 octets and one further character', args=dict(surface=(x * 299, 1), norm='n', read='r', head=(x * 300, 1))),
        case('numbers', numbers, 'ids, costs of up to 5 digits and synonym groups of 3', args=dict(digits=(5, 4, 5, 3), negs=(False, False, True))),
        case('numbers-2', numbers, 'ids, costs of up to 5 digits and synonym groups of 10', args=dict(digits=(1, 5, 5, 10), negs=(True, False, False))),
        case('lists', lists, 'any of 4 lists of units for A, B, C and synonyms, any of 4 dictionary forms', args=dict(options=['*', '0', '2/1/2', '1/0'], forms=['*', '0', '1', '2'])),
        case('many', many, 'lists of 125 to 127 units', args=dict(k=125)),
        case('orders', orders, 'any 3 reads of 5 words', args=dict(n=3)),
        case('source', source, 'a source file with a row of one-character columns', args=dict(user=False, lens=(1, 1, 1, 1), quoted=False)),
        case('source-quoted', source, 'a source file with a row of quoted one-character columns', args=dict(user=False, lens=('h', 1, 1, 'r'), quoted=True)),
        case('source-user', source, 'a user dictionary with a row of one-character columns', args=dict(user=True, lens=(1, 1, 1, 'r'), quoted=False)),
    ]
    if not q:
        out += [
            case('three-chars', strings, 'surface, normalized form and reading of two or three characters', args=dict(surface=3, norm=2, read=2)),
            case('head-3', strings, 'a headword of three characters', args=dict(surface=1, norm=1, read='', head=3)),
            case('len-max', strings, 'strings of 32765 units and one further character', args=dict(surface=(x * 32765, 1), norm='n', read='r')),
            case('orders-4', orders, 'any 4 reads of 5 words', args=dict(n=4)),
            case('source-2', source, 'a source file with columns of two characters', args=dict(user=False, lens=(2, 2, 2, 1), quoted=False)),
            case('source-user-q', source, 'a user dictionary with quoted columns', args=dict(user=True, lens=('h', 2, 2, 1), quoted=True)),
        ]
    return out
