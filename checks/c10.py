"""C10: A and B modes split exactly into the units the dictionary declares."""
from common import case, row, world, modes, facts, report, system_bytes, user_bytes, full_matrix, dictionary, WORLD, POS, NUM, SIMPLE, NUMJOIN, KATAJOIN, NORMALIZE

ASSUMPTIONS = ['units that a word declares spell the word (their headwords, joined) and there are none or at least two of them']
REQUIRED = ['split', 'whole', 'unknown word', 'user unit', 'modes differ']

OWN = ['名詞', '固有名詞', '利用者', '*', '*', '*']


def unit_ids(text, dic):
    """Word ids a unit column means, for a word of dictionary `dic`."""
    out = []
    if text == '*':
        return out
    for u in text.split('/'):
        if u.startswith('U'):
            out.append((dic, int(u[1:])))
        else:
            out.append((0, int(u)))
    return out


def expected(S, c, rows, mode):
    """What a morpheme of mode C becomes: (begin in bytes from the start of
    the morpheme, row, dictionary, number) of each unit, or None."""
    if c.is_oov() or c.dictionary_id() < 0:
        return None
    dic = c.dictionary_id()
    r = rows[dic][c.word_id() & 0xFFFFFFF]
    ids = unit_ids(r[15] if mode == 'A' else r[16], dic)
    if len(ids) < 2:
        return None
    return [(d, i, rows[d][i]) for d, i in ids]


def compare(S, tok, text, rows):
    """The three modes against the rows, and splitting on demand."""
    M = modes(S)
    C = list(tok.tokenize(text, M['C']))
    plain = tok.tokenize(text)
    S.check(S.same(report(plain), [facts(m) for m in C]), 'mode C is the default and never splits')
    for mode in 'AB':
        got = list(tok.tokenize(text, M[mode]))
        k = 0
        for c in C:
            want = expected(S, c, rows, mode)
            parts = list(c.split(M[mode]))
            if want is None:
                S.reach('unknown word' if c.is_oov() else 'whole')
                S.check(S.same([facts(p) for p in parts], [facts(c)]), 'a word without units stays whole')
                S.check(k < len(got) and S.same(facts(got[k]), facts(c)), 'a word without units stays whole')
                k += 1
                continue
            S.reach('split')
            S.check(len(parts) == len(want), 'a word is split into its units')
            at = c.begin()
            for p, (d, i, r) in zip(parts, want):
                if d:
                    S.reach('user unit')
                S.check(k < len(got), 'every mode C boundary is kept')
                S.check(S.same(facts(p), facts(got[k])), 'splitting on demand gives what the mode gives')
                S.check(p.begin() == at, 'units follow each other')
                at = at + len(r[0])
                S.check(p.end() == at, 'a unit is as long as its headword')
                S.check(S.same(p.surface(), text[p.begin():at]), 'a unit is as long as its headword')
                S.check(p.dictionary_id() == d and (p.word_id() & 0xFFFFFFF) == i, 'the units are the declared words')
                S.check(S.same([p.normalized_form(), p.reading_form(), list(p.part_of_speech()), p.is_oov()],
                               [r[12], r[11], r[5:11], False]), 'a unit reports its own entry')
                k += 1
            S.check(at == c.end(), 'units cover the word')
        S.check(k == len(got), 'nothing is left over')
    for c in C:
        S.check(S.same([facts(p) for p in c.split(M['C'])], [facts(c)]), 'mode C never splits')
    S.observe('n', len(C))


def declared(S, words, target, options, text_doms, others=()):
    """One word whose A and B units are any of the options."""
    a, b = S.choice('a', options), S.choice('b', options)
    rows = [row(w, cost=5000, norm=w + 'n', read=w + 'r') for w in words] + [row(target, cost=-5000, a=a, b=b, mode='C')] + list(others)
    S.put('system.dic', system_bytes(S, rows, full_matrix(1)))
    text = ''
    for i, d in enumerate(text_doms):
        text += S.char('t%d' % i, d) if len(d) > 1 else d
    compare(S, dictionary(S).create(), text, [rows])


def surfaces(S, text_doms):
    """Units whose surface is not their headword."""
    rows = [row('か', cost=5000, surface='カ゛'), row('き', cost=5000, surface='a', norm='木'), row('かき', cost=0, surface='柿', a='0/1', b='1/0'),
            row('きか', cost=0, a='1/0')]
    S.put('system.dic', system_bytes(S, rows, full_matrix(1)))
    text = ''
    for i, d in enumerate(text_doms):
        text += S.char('t%d' % i, d)
    compare(S, dictionary(S).create(), text, [rows])


def normalized(S, doms):
    """Texts whose normalized form has another size."""
    text = ''
    for i, d in enumerate(doms):
        text += S.char('t%d' % i, d) if len(d) > 1 else d
    compare(S, world(S, text=(NORMALIZE,), path=()).create(), text, [WORLD])


def longer(S, sizes, ends):
    """Words of very many units."""
    rows = [row('か', cost=5000, read='一'), row('き', cost=5000, read='二')]
    for n in sizes:
        w = 'か' * (n - 1)
        for e in ends:
            k = '01'[e == 'き']
            rows.append(row(w + e, cost=-200 * n - n * n // 4, read='長%d' % n, a='0/' * (n - 1) + k, b='0/' * (n - 1) + k))
    S.put('system.dic', system_bytes(S, rows, full_matrix(1)))
    n = S.choice('size', sizes)
    compare(S, dictionary(S).create(), S.char('t', 'かきく') + 'か' * (n - 1) + S.char('e', ends), [rows])


def users(S, text_doms, swap=False):
    """Words of two user dictionaries with units in their own and the system dictionary."""
    base = [row('a', cost=100), row('b', cost=100), row('ab', cost=150, a='0/1')]
    u1 = [row('c', cost=100, pos=OWN), row('ac', cost=-200, a='0/U0', b='0/U0', pos=OWN), row('abc', cost=-900, a='0/1/U0', b='2/U0')]
    u2 = [row('d', cost=100), row('c', cost=300, norm='second'), row('dc', cost=-400, a='U0/U1', b='*'), row('ad', cost=-400, a='*', b='0/U0', pos=OWN)]
    S.put('system.dic', system_bytes(S, base, full_matrix(1)))
    us = [u2, u1] if swap else [u1, u2]
    S.put('u1.dic', user_bytes(S, us[0], base, full_matrix(1)))
    S.put('u2.dic', user_bytes(S, us[1], base, full_matrix(1)))
    text = ''
    for i, d in enumerate(text_doms):
        text += S.char('t%d' % i, d)
    d = dictionary(S, users=('u1.dic', 'u2.dic'), chardef='DEFAULT 0 1 0\n')
    compare(S, d.create(), text, [base] + us)


def whole(S, text_doms, path=(NUMJOIN, KATAJOIN)):
    text = ''
    for i, d in enumerate(text_doms):
        text += S.char('t%d' % i, d)
    compare(S, world(S, text=(), path=path).create(), text, [WORLD])


def kept(S, text_doms):
    """Modes given when a tokenizer is made and when it is called."""
    M = modes(S)
    text = ''
    for i, d in enumerate(text_doms):
        text += S.char('t%d' % i, d)
    d = world(S, text=(), path=())
    want = {m: report(d.create().tokenize(text, M[m])) for m in M}
    own = S.choice('own', ['A', 'B', 'C'])
    other = S.choice('other', ['A', 'B', 'C'])
    tok = d.create(M[own])
    second = d.create()
    S.check(S.same(report(tok.tokenize(text)), want[own]), 'a tokenizer splits in the mode it was made with')
    S.check(S.same(report(tok.tokenize(text, mode=M[other])), want[other]), 'a mode given to a call is used for it')
    S.check(S.same(report(tok.tokenize(text)), want[own]), 'a mode given to a call is used for it only')
    S.check(S.same(report(tok.tokenize(text, None)), want[own]), 'a tokenizer splits in the mode it was made with')
    S.check(S.same(report(second.tokenize(text)), want['C']), 'a tokenizer made without a mode does not split')
    if not S.same(want['A'], want['C']):
        S.reach('modes differ')


def cases(tier):
    q = tier == 'quick'
    four = ['か', 'き', 'く', 'かき', 'きく']
    out = [
        case('declared', declared, 'a word of 3 characters with any of 5 unit lists for A and for B',
             args=dict(words=four, target='かきく', options=['*', '0/1/2', '3/2', '0/4', '5/5'][:4], text_doms=['か', 'き', 'くか', 'かく'])),
        case('one-unit', declared, 'a word with one unit or none', args=dict(words=['か'], target='かか', options=['*', '0/0', '1'], text_doms=['か', 'か', 'かき'])),
        case('surfaces', surfaces, '4 characters, units whose surface differs from their headword', args=dict(text_doms=['かき'] * 4)),
        case('users', users, '4 characters of a, b, c, d with two user dictionaries', args=dict(text_doms=['abcd'] * 4)),
        case('users-swapped', users, '3 characters with the two user dictionaries the other way round', args=dict(text_doms=['abcd'] * 3, swap=True)),
        case('normalized', normalized, '4 characters, the first of another size when normalized', args=dict(doms=['aＡ㌀Ⅱ', '東京', '京', '都あ'])),
        case('longer', longer, 'words of 9, 17 and 127 units', args=dict(sizes=(9, 17, 127), ends='かき')),
        case('kanji', whole, '3 characters of kanji words with nested units', args=dict(text_doms=['東京都川'] * 3)),
        case('numbers', whole, '3 characters of joined numerals that have units', args=dict(text_doms=['一千1東'] * 3)),
        case('kept', kept, '3 characters, every mode at creation and per call', args=dict(text_doms=['東京', '京', '都川'])),
        case('no-join', whole, '3 characters of numerals that have units, without joining', args=dict(text_doms=['一千東'] * 3, path=())),
    ]
    if not q:
        out += [
            case('declared-4', declared, 'a word of 4 characters with any of 6 unit lists', args=dict(
                words=four + ['くか', 'きくか'], target='かきくか', options=['*', '0/1/2/0', '3/5', '0/6', '0/4/0', '3/2/0'], text_doms=['か', 'き', 'く', 'かく', 'かき'])),
            case('kept-4', kept, '4 characters, every mode at creation and per call', args=dict(text_doms=['東京都'] * 4)),
            case('users-5', users, '5 characters with two user dictionaries', args=dict(text_doms=['abcd'] * 5)),
            case('kanji-5', whole, '5 characters of kanji words', args=dict(text_doms=['東京都'] * 5)),
            case('surfaces-6', surfaces, '6 characters', args=dict(text_doms=['かき'] * 6)),
        ]
    return out
