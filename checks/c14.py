"""C14: dictionary lookup finds exactly the words that start at a position."""
from common import case, row, csv_text, header, quiet, matrix_text, system_bytes, user_bytes, build_system, build_user, full_matrix, dictionary, POS

ASSUMPTIONS = ['headwords and texts hold no NUL', 'at most 255 words share a headword (more are refused by the build)']
REQUIRED = ['found', 'nothing', 'not indexed', 'homographs', 'longer than the text', 'user word']


def size(S, t):
    n = 0
    for c in S.codes(t):
        n = n + S.concrete(S.ite(c < 0x80, 1, S.ite(c < 0x800, 2, S.ite(c < 0x10000, 3, 4))))
    return n


def agree(S, lex, text, dics, inside=True, first=None):
    """Every position of the text (or the first ones); dics: rows of the
    system dictionary, then of the user dictionaries."""
    data = text.encode('utf-8')
    starts = [0]
    for c in text:
        starts.append(starts[-1] + size(S, c))
    places = range(starts[-1] + 1) if inside else starts
    for at in list(places)[:first]:
        got = list(lex.lookup(data, at))
        seen = {}
        last = None
        for wid, end in got:
            S.check((wid, end) not in seen, 'a word is found once')
            seen[wid, end] = True
            d = wid >> 28
            S.check(0 <= d < len(dics), 'an id leads back to its word')
            if last == 0 and d:
                S.fail('user dictionaries come before the system dictionary')
            last = d
        n = 0
        k = starts.index(at) if at in starts else -1
        for d, rows in enumerate(dics):
            for i, r in enumerate(rows):
                h = r[0]
                hit = False
                if k >= 0 and k + len(h) < len(starts):
                    hit = S.same(text[k:k + len(h)], h)
                elif k >= 0:
                    S.reach('longer than the text')
                if hit and r[1] == '-1':
                    S.reach('not indexed')
                    hit = False
                if hit:
                    n += 1
                    wid = d << 28 | i
                    S.check((wid, starts[k + len(h)]) in seen, 'every word that starts there is found, with its end')
                    S.check(lex.get_word_info(wid).normalized_form == r[12], 'an id leads back to its word')
                    S.reach('found')
                    if d:
                        S.reach('user word')
        S.check(len(got) == n, 'nothing else is found')
        if n == 0:
            S.reach('nothing')
    S.observe('last', len(got))


def letters(S, name, doms):
    t = ''
    for i, d in enumerate(doms):
        t += S.char('%s%d' % (name, i), d)
    return t


def numbered(rows):
    """Rows told apart by their normalized forms."""
    return [r[:12] + ['n%d' % i] + r[13:] for i, r in enumerate(rows)]


def fixed(S, words, doms, hidden=(), first=None):
    rows = numbered([row(w, left=-1 if i in hidden else 0) for i, w in enumerate(words)])
    S.put('s.dic', system_bytes(S, rows, full_matrix(1)))
    if len(set(words)) < len(words):
        S.reach('homographs')
    agree(S, dictionary(S, system='s.dic').lexicon, letters(S, 't', doms), [rows], first=first)


HIDE = [0, -1, -2, 30000]


def any_words(S, lens, doms, dom, inside=False, hidden=False):
    """Headwords are arbitrary too."""
    rows = numbered([row(S.text('h%d' % i, n, dom), left=S.choice('left%d' % i, HIDE) if hidden else 0, surface='s') for i, n in enumerate(lens)])
    b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    for e in rows:
        w = b.parse_line(e)
        if w.headword:
            b.add_to_trie(w.headword, len(b.entries))
        b.entries.append(w)
    out = S.open(S.path('b.dic'), 'wb')
    out.write(header(S, 'SYSTEM_DICT_VERSION_2'))
    b.write_grammar(S.stream(matrix_text(1, 1, [])), out)
    b.write_lexicon(out)
    out.close()
    lex = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary.from_system_dictionary(S.path('b.dic')).lexicon
    for i in range(len(rows)):
        for j in range(i):
            if S.same(rows[i][0], rows[j][0]):
                S.reach('homographs')
    agree(S, lex, letters(S, 't', doms), [rows], inside)


def far(S, sizes, fill, doms, dom):
    """Long headwords: many equal characters and others behind them."""
    rows = numbered([row(fill * n + S.text('h%d' % i, 1, dom), surface='s', norm='s', read='s') for i, n in enumerate(sizes)])
    S.put('s.dic', system_bytes(S, [row('a')], full_matrix(1)))
    b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    for e in rows:
        w = b.parse_line(e)
        b.add_to_trie(w.headword, len(b.entries))
        b.entries.append(w)
    out = S.open(S.path('b.dic'), 'wb')
    out.write(header(S, 'SYSTEM_DICT_VERSION_2'))
    b.write_grammar(S.stream(matrix_text(1, 1, [])), out)
    b.write_lexicon(out)
    out.close()
    lex = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary.from_system_dictionary(S.path('b.dic')).lexicon
    agree(S, lex, fill * max(sizes) + letters(S, 't', doms), [rows], False, 2)


def users(S, base, others, doms):
    rows = [numbered([row(w[1:] if w[0] == '!' else w, left=-1 if w[0] == '!' else 0) for w in ws]) for ws in (base,) + tuple(others)]
    S.put('s.dic', system_bytes(S, rows[0], full_matrix(1)))
    names = []
    for k, r in enumerate(rows[1:]):
        S.put('u%d.dic' % k, user_bytes(S, r, rows[0], full_matrix(1)))
        names.append('u%d.dic' % k)
    agree(S, dictionary(S, system='s.dic', users=names).lexicon, letters(S, 't', doms), rows)


def many(S, n):
    """Very many homographs."""
    rows = numbered([row('あ') for _ in range(n)] + [row('あい'), row('い')])
    S.put('s.dic', system_bytes(S, rows, full_matrix(1)))
    S.reach('homographs')
    agree(S, dictionary(S, system='s.dic').lexicon, letters(S, 't', ['あい', 'い']), [rows], inside=False)


VOCAB = ['a', 'ab', 'abc', 'b', 'bc', 'あ', 'あい', 'い', 'あ', '𠮷', '𠮷a', 'é', 'aé', 'あ', 'bc', 'か', 'がa']


def cases(tier):
    q = tier == 'quick'
    out = [
        case('fixed', fixed, 'any 3 characters of 8, 17 words', args=dict(words=VOCAB, doms=['abcあい𠮷éか'] * 3, hidden=(4, 8))),
        case('any-text', fixed, 'any 2 characters', args=dict(words=VOCAB, doms=[((1, 0xD7FF), (0xE000, 0x10FFFF))] * 2, hidden=(3,))),
        case('hidden-all', fixed, 'homographs of which all but one are not indexed', args=dict(words=['a', 'a', 'a', 'ab', 'ab'], doms=['ab'] * 3, hidden=(0, 2, 3, 4))),
        case('words', any_words, 'three headwords of 1 and 2 characters of 3, 3 characters of text', args=dict(lens=(1, 2, 2), doms=['あいa'] * 3, dom='あいa')),
        case('words-any', any_words, 'a headword of any two characters, text of any 2', args=dict(lens=(2,), doms=[((1, 0x10FF), (0x10000, 0x10FFFF))] * 2, dom=((1, 0x10FF), (0x10000, 0x10FFFF)))),
        case('words-any-1', any_words, 'two headwords of any character, text of any 2', args=dict(lens=(1, 1), doms=[((1, 0x10FF), (0x10000, 0x10FFFF))] * 2, dom=((1, 0x10FF), (0x10000, 0x10FFFF)))),
        case('nested', fixed, '24 words, each behind another', args=dict(words=['あ' * k for k in range(1, 23)] + ['あ' * 21 + 'い', 'あ' * 12 + 'い'], doms=['あ'] * 12 + ['あい'] + ['あ'] * 8 + ['あい'] * 2)),
        case('nested-130', fixed, '130 words, each behind another, the first two places', args=dict(
            words=['a' * k for k in range(1, 131)], doms=['a'] * 60 + ['ab'] + ['a'] * 69 + ['ab'] * 2, first=2)),
        case('words-hidden', any_words, 'three headwords of one character of 3, each indexed or not', args=dict(lens=(1, 1, 1), doms=['あいa'] * 2, dom='あいa', hidden=True)),
        case('long', any_words, 'a headword of 4 characters', args=dict(lens=(4, 3), doms=['ab'] * 4, dom='ab')),
        case('far', far, 'headwords of 22 and 86 characters, text of 87', args=dict(sizes=(85, 21), fill='あ', doms=['あaい', 'あa'], dom='あaい')),
        case('far-1', far, 'headwords of 256 and 3001 characters, text of 3002', args=dict(sizes=(3000, 255), fill='a', doms=['aあ', 'a'], dom='aあ')),
        case('users', users, 'two user dictionaries, any 3 characters of 5', args=dict(base=('a', 'ab', 'b', 'あ'), others=(('ab', 'c', 'a', '!b'), ('a', 'あb', '!c', 'a')), doms=['abcあい'] * 3)),
        case('users-3', users, 'three user dictionaries', args=dict(base=('!a', 'b'), others=(('a',), ('!a', 'ba'), ('ab', 'a', 'b')), doms=['ab'] * 3)),
        case('many', many, '255 homographs', args=dict(n=255)),
        case('many-128', many, '128 homographs', args=dict(n=128)),
    ]
    if not q:
        out += [
            case('words-any-2', any_words, 'a headword of any two characters and one of any character, text of any 2', args=dict(lens=(2, 1), doms=[((1, 0x10FF), (0x10000, 0x10FFFF))] * 2, dom=((1, 0x10FF), (0x10000, 0x10FFFF)))),
            case('fixed-5', fixed, 'any 5 characters of 7, 17 words', args=dict(words=VOCAB, doms=['abcあい𠮷é'] * 5, hidden=(4, 8))),
            case('far-2', far, 'headwords of 10900 and 10922 characters, text of 10923', args=dict(sizes=(10921, 10899), fill='あ', doms=['あaい', 'あa'], dom='あaい')),
            case('words-4', any_words, 'four headwords of 1 to 3 characters of 2, 4 characters of text', args=dict(lens=(1, 2, 2, 3), doms=['あい'] * 4, dom='あい')),
            case('words-3', any_words, 'three headwords of 2 characters of 3, each indexed or not', args=dict(lens=(2, 2, 1), doms=['あいa'] * 3, dom='あいa', hidden=True)),
            case('users-5', users, 'two user dictionaries, any 5 characters', args=dict(base=('a', 'ab', 'b', 'あ'), others=(('ab', 'c', 'a', '!b'), ('a', 'あb', '!c', 'a')), doms=['abcあ'] * 5)),
        ]
    return out
