"""C25: morpheme lists behave as sequences and morphemes report their own entry."""
from common import (case, row, dictionary, system_bytes, user_bytes, build_system, full_matrix, modes, facts, simple, CATCH, NORMALIZE, NUMJOIN, POS, NUM, SYM,
                    SIMPLE)

ASSUMPTIONS = ['slices are not claimed', 'a caller does not change the lists it is given (parts of speech, synonym groups)']
REQUIRED = ['inside', 'negative', 'outside', 'empty list', 'dictionary word', 'user word', 'unknown word', 'joined', 'unit', 'normalized', 'iterated']

ROWS = [
    row('東', cost=100, read='ヒガシ', syn='7/1'), row('京都', cost=100, read='キョウト', norm='京師', a='2/3', b='2/3', pos=POS, syn='12'),
    row('京', cost=5000, read='キョウ', norm='けい', dform='3'), row('都', cost=5000, read='ト', pos=SYM, syn='6/7/5/6'),
    row('1', cost=100, pos=NUM, read='いち'), row('2', cost=100, pos=NUM, read='に', syn='3'), row('メートル', cost=100, surface='メーター', read='めえとる', norm='m'),
    row('走り', cost=100, dform='8', read='ハシリ'), row('走る', cost=9000, read='ハシル', pos=SYM), row('zz', left=-1, pos=CATCH),
]
OWN = ['名詞', '固有名詞', '私', '*', '*', '*']
USER = [row('y', cost=100, pos=OWN, read='ワイ', norm='Y', syn='44'), row('qz', cost=100, pos=POS, a='U2/U3', b='U2/U3', dform='0', read='キューゼット'),
        row('q', cost=5000, pos=OWN, syn='9'), row('z', cost=5000, pos=NUM, norm='Z')]
# text -> morphemes in mode C: (surface, dictionary, word) or what is reported
PIECES = {
    '東': [('東', 0, 0)],
    '京都': [('京都', 0, 1)],
    '㍍': [('㍍', 0, 6)],
    '走り': [('走り', 0, 7)],
    'y': [('y', 1, 0)],
    '!': [('!', None, '!')],
    'Ａ': [('Ａ', None, 'a')],
    '東12。': [('東', 0, 0), ('12', None, '12'), ('。', None, '。')],
    'qz。': [('qz', 1, 1), ('。', None, '。')],
}


def report(S, m, what):
    """What an accessor reports."""
    if what == 'begin':
        return m.begin()
    if what == 'end':
        return m.end()
    if what == 'surface':
        return m.surface()
    if what == 'str':
        return str(m)
    if what == 'pos':
        return list(m.part_of_speech())
    if what == 'pos id':
        return m.part_of_speech_id()
    if what == 'dictionary form':
        return m.dictionary_form()
    if what == 'normalized form':
        return m.normalized_form()
    if what == 'reading':
        return m.reading_form()
    if what == 'oov':
        return bool(m.is_oov())
    if what == 'word id':
        return m.word_id()
    if what == 'dictionary':
        return m.dictionary_id()
    if what == 'synonyms':
        return list(m.synonym_group_ids())
    w = m.get_word_info()
    return [w.surface, w.head_word_length]


WHAT = ['begin', 'end', 'surface', 'str', 'pos', 'pos id', 'dictionary form', 'normalized form', 'reading', 'oov', 'word id', 'dictionary', 'synonyms', 'word info']


def entry(grammar, piece, at):
    """The same from the source rows."""
    surface, d, w = piece
    out = {'begin': at, 'end': at + len(surface), 'surface': surface, 'str': surface}
    if d is None:
        num = w.isdigit()
        out.update({'pos': NUM if num else CATCH, 'dictionary form': w, 'normalized form': w, 'reading': 'いちに' if num else '', 'oov': not num, 'dictionary': -1,
                    'synonyms': [], 'word info': [w, len(w.encode('utf-8'))]})
    else:
        rows = USER if d else ROWS
        r = rows[w]
        out.update({'pos': r[5:11], 'dictionary form': r[4] if r[13] == '*' else rows[int(r[13])][4], 'normalized form': r[12], 'reading': r[11], 'oov': False,
                    'word id': d << 28 | w, 'dictionary': d, 'synonyms': [] if r[18] == '*' else [int(x) for x in r[18].split('/')],
                    'word info': [r[4], len(r[0].encode('utf-8'))]})
    out['pos id'] = grammar.get_part_of_speech_id(out['pos'])
    return out


def analysed(S, slots, pieces, mode='C'):
    S.put('system.dic', system_bytes(S, ROWS, full_matrix(1)))
    S.put('user.dic', user_bytes(S, USER, ROWS, full_matrix(1)))
    d = dictionary(S, oov=(simple(0, 0, 3000),), text=(NORMALIZE,), path=(NUMJOIN,), users=('user.dic',), chardef='DEFAULT 0 1 0\n0x0030..0x0039 NUMERIC\n')
    text = ''
    want = []
    for i in range(slots):
        p = S.choice('piece%d' % i, pieces)
        for x in PIECES[p]:
            parts = [x]
            if mode != 'C' and x[:2] == ('京都', 0):
                parts = [('京', 0, 2), ('都', 0, 3)]
            if mode != 'C' and x[0] == 'qz':
                parts = [('q', 1, 2), ('z', 1, 3)]
            for y in parts:
                want.append(entry(d.grammar, y, len(text)))
                text += y[0]
    return d, d.create(), text, want


def seen(S, m):
    S.reach('unknown word' if m.is_oov() else 'user word' if m.dictionary_id() > 0 else 'dictionary word' if m.dictionary_id() == 0 else 'joined')


def same_report(S, m, want, what=WHAT):
    for a in what:
        if a in want:
            S.check(S.same(report(S, m, a), want[a]), 'every accessor reports the data of that very word')


def index(S, slots, pieces, mode='C', top=6):
    """Any index, and the sequence as a whole."""
    d, tok, text, want = analysed(S, slots, pieces, mode)
    ml = tok.tokenize(text, modes(S)[mode])
    n = len(want)
    S.check(len(ml) == n and ml.size() == n, 'the length is the number of morphemes')
    i = S.int('index', -top, top)
    try:
        m = ml[i]
    except IndexError:
        S.check(S.or_(i >= n, i < -n), 'an index inside is accepted')
        S.reach('outside')
    else:
        S.check(S.and_(i < n, i >= -n), 'an index outside raises an index error')
        k = S.concrete(i)
        S.reach('negative' if k < 0 else 'inside')
        same_report(S, m, want[k])
        seen(S, m)
    S.check(str(ml) == text, 'the string form is the concatenated surfaces')
    one = iter(ml)
    two = [m for m in ml]
    S.check(len(two) == n, 'iteration gives every morpheme')
    for k in range(n):
        same_report(S, next(one), want[k])
        same_report(S, two[n - 1 - k], want[n - 1 - k])
        S.reach('iterated')
    try:
        next(one)
        S.fail('iteration gives every morpheme')
    except StopIteration:
        pass


def orders(S, pieces, calls, whats, same=False, slots=2):
    """Accessors of any morphemes in any order."""
    d, tok, text, want = analysed(S, slots, pieces)
    ml = tok.tokenize(text)
    ms = list(ml)
    for c in range(calls):
        k = S.choice('morpheme%d' % c, range(len(want))) if c == 0 or not same else k
        a = S.choice('call%d' % c, whats)
        m = ms[k] if S.bool('kept%d' % c) else ml[k]
        if a == 'split':
            parts = m.split(modes(S)['A'])
            at = want[k]['begin']
            units = {'京都': [('京', 0, 2), ('都', 0, 3)], 'qz': [('q', 1, 2), ('z', 1, 3)]}.get(want[k]['surface'])
            if units:
                S.check(len(parts) == 2, 'a unit reports its own entry')
                same_report(S, parts[-1], entry(d.grammar, units[1], at + 1))
                same_report(S, parts[0], entry(d.grammar, units[0], at))
                S.check(str(parts) == want[k]['surface'], 'the string form is the concatenated surfaces')
                S.reach('unit')
            else:
                S.check(len(parts) == 1, 'a word without units stays whole')
                same_report(S, parts[0], want[k])
            continue
        same_report(S, m, want[k], [a])
        if want[k]['surface'] in '㍍Ａ':
            S.reach('normalized')


def two_lists(S, pieces):
    """Two results at once."""
    d, tok, text, want = analysed(S, 1, pieces)
    other = S.choice('other', pieces)
    ml = tok.tokenize(text)
    one = list(ml)[0]
    ml2 = tok.tokenize(other + text)
    same_report(S, one, want[0])
    same_report(S, ml[0], want[0])
    skip = len(PIECES[other])
    moved = dict(want[0], begin=len(other), end=len(other) + want[0]['end'])
    same_report(S, ml2[skip], moved)
    seen(S, one)


def empty(S):
    M = S.load('sudachipy.morphemelist').MorphemeList
    S.put('system.dic', system_bytes(S, ROWS, full_matrix(1)))
    tok = dictionary(S, oov=(simple(0, 0, 1),), chardef='DEFAULT 0 1 0\n').create()
    i = S.int('index', -3, 3)
    for ml in (M.empty(), tok.tokenize('')):
        S.check(len(ml) == 0 and ml.size() == 0 and list(ml) == [] and str(ml) == '', 'the empty list has no morphemes')
        try:
            ml[i]
        except IndexError:
            S.reach('empty list')
            continue
        S.fail('an index outside raises an index error')


def contents(S, norm, read, digits, dom):
    """Entries with any strings and numbers."""
    rows = []
    for k, w in enumerate(['あ', 'い']):
        n = S.text('norm%d' % k, norm, dom)
        r = S.text('read%d' % k, read, dom)
        p = S.text('pos%d' % k, 1, dom)
        syn = S.text('syn%d' % k, digits, '123456789')
        x = row(w, cost=10, norm=n, read=r, syn=syn)
        x[7] = p
        rows.append(x)
    path = build_system(S, rows, full_matrix(1), 'own.dic')
    d = dictionary(S, system=path, oov=(dict(SIMPLE, oovPOS=rows[0][5:11]),), chardef='DEFAULT 0 1 0\n')
    ml = d.create().tokenize('いあ')
    for k, m in ((1, ml[0]), (0, ml[1]), (1, ml[-2])):
        r = rows[k]
        S.check(S.same(m.reading_form(), r[11]), 'every accessor reports the data of that very word')
        S.check(S.same(list(m.part_of_speech()), r[5:11]), 'every accessor reports the data of that very word')
        S.check(S.same(m.normalized_form(), r[12]), 'every accessor reports the data of that very word')
        v = 0
        for c in S.codes(r[18]):
            v = v * 10 + (c - 48)
        S.check(S.same(list(m.synonym_group_ids()), [v]), 'every accessor reports the data of that very word')
        S.check(m.dictionary_form() == r[4] and m.surface() == r[4] and m.word_id() == k and not m.is_oov(), 'every accessor reports the data of that very word')
    S.reach('dictionary word')


def dozens(S, n):
    """Words of many user dictionaries."""
    own = [['固有%d' % k, '*', '*', '*', '*', '*'] for k in range(n)]
    rows = [[row('あ', cost=9000)] + [row(chr(0x4E00 + k), cost=100, read='よ%d' % k, norm='の%d' % k, syn=str(k + 1), pos=own[k])] for k in range(n)]
    S.put('system.dic', system_bytes(S, ROWS, full_matrix(1)))
    for k in range(n):
        S.put('u%d.dic' % k, user_bytes(S, rows[k], ROWS, full_matrix(1)))
    d = dictionary(S, oov=(simple(0, 0, 3000),), users=['u%d.dic' % k for k in range(n)], chardef='DEFAULT 0 1 0\n')
    k = S.int('dictionary', 0, n - 1)
    c = S.char('c', ((0x4E00, 0x4E00 + n - 1),))
    S.assume(S.codes(c)[0] == 0x4E00 + k)
    m = d.create().tokenize('東' + c)[1]
    k = S.concrete(k)
    S.check(m.dictionary_id() == k + 1 and m.word_id() == (k + 1) << 28 | 1, 'every accessor reports the data of that very word')
    S.check(m.reading_form() == 'よ%d' % k and m.normalized_form() == 'の%d' % k and list(m.synonym_group_ids()) == [k + 1] and not m.is_oov()
            and list(m.part_of_speech()) == own[k], 'every accessor reports the data of that very word')
    S.check(m.begin() == 1 and m.end() == 2 and m.surface() == chr(0x4E00 + k), 'every accessor reports the data of that very word')
    S.reach('user word')


def lengthy(S, n, top):
    """A long list."""
    S.put('system.dic', system_bytes(S, ROWS, full_matrix(1)))
    d = dictionary(S, oov=(simple(0, 0, 3000),), chardef='DEFAULT 0 1 0\n')
    ml = d.create().tokenize('東走り' * n)
    S.check(len(ml) == 2 * n and ml.size() == 2 * n, 'the length is the number of morphemes')
    i = S.int('index', -top, top)
    try:
        m = ml[i]
    except IndexError:
        S.check(S.or_(i >= 2 * n, i < -2 * n), 'an index inside is accepted')
        S.reach('outside')
        return
    S.check(S.and_(i < 2 * n, i >= -2 * n), 'an index outside raises an index error')
    k = S.concrete(i) % (2 * n)
    S.check(m.begin() == (k // 2) * 3 + k % 2 and m.end() == (k // 2) * 3 + (3 if k % 2 else 1), 'every accessor reports the data of that very word')
    S.check(m.surface() == ('走り' if k % 2 else '東') and m.word_id() == (7 if k % 2 else 0), 'every accessor reports the data of that very word')
    S.check(str(ml) == '東走り' * n and len([x for x in ml]) == 2 * n, 'the string form is the concatenated surfaces')


def cases(tier):
    q = tier == 'quick'
    every = sorted(PIECES)
    out = [
        case('index-1', index, 'a list of 1 to 3, any index of -6 to 6', args=dict(slots=1, pieces=every)),
        case('index-3', index, 'a list of 3, any index of -6 to 6', args=dict(slots=3, pieces=['東', '京都', 'y', '!'])),
        case('index-a', index, 'mode A, any index', args=dict(slots=2, pieces=['京都', 'qz。', '㍍'], mode='A')),
        case('orders-2', orders, 'any two accessors of any morphemes of a list of 2', args=dict(pieces=['京都', '㍍'], calls=2, whats=['reading', 'pos', 'begin', 'synonyms', 'split'])),
        case('orders-all', orders, 'any accessor of any piece', args=dict(pieces=every, calls=1, slots=1, whats=WHAT + ['split'])),
        case('dozens', dozens, 'a word of any of 14 user dictionaries', args=dict(n=14)),
        case('lengthy', lengthy, 'a list of 140, any index of -145 to 145', args=dict(n=70, top=145)),
        case('two', two_lists, 'two lists of one tokenizer', args=dict(pieces=every)),
        case('empty', empty, 'the empty list, any index of -3 to 3'),
        case('contents', contents, 'two words with any strings', args=dict(norm=1, read=2, digits=2, dom=((0x3041, 0x3096), (0x4E00, 0x9FFF)))),
    ]
    if not q:
        out += [
            case('orders-more', orders, 'any two accessors of any morphemes of a list of 2', args=dict(
                pieces=['京都', 'y', '㍍', '!'], calls=2, whats=['reading', 'pos', 'begin', 'synonyms', 'dictionary form', 'word id', 'split'])),
            case('orders-next', orders, 'any accessor of any morpheme of two pieces', args=dict(pieces=every, calls=1, whats=WHAT + ['split'])),
            case('index-4', index, 'a list of 4 pieces, any index of -9 to 9', args=dict(slots=4, pieces=['東', '京都', 'Ａ', 'y'], top=9)),
            case('orders-3', orders, 'any three accessors of any morphemes of a list of 2', args=dict(pieces=['京都', 'y', '!'], calls=3, whats=['reading', 'pos', 'synonyms', 'split'])),
            case('orders-2-all', orders, 'any two accessors of a morpheme', args=dict(pieces=['京都', 'Ａ'], calls=2, whats=WHAT + ['split'], same=True)),
            case('contents-any', contents, 'two words with any strings', args=dict(norm=2, read=1, digits=3, dom=((0x3041, 0x3096), (0x10000, 0x10FFFF)))),
        ]
    return out
