"""C15: words of several user dictionaries keep their identity."""
from common import case, row, system_bytes, user_bytes, full_matrix, dictionary, modes, facts, without_grammar, layout, info_at, patched, POS, NUM, SIMPLE

ASSUMPTIONS = ['a user dictionary is built against the system dictionary it is loaded with']
REQUIRED = ['own part of speech', 'shared part of speech', 'system part of speech', 'own units', 'system units', 'unknown word', 'too many', 'no table', 'same file twice']

SHARED = ['名詞', '固有名詞', '共有', '*', '*', '*']
VERB = ['動詞', '一般', '*', '*', '*', '*']
BASE = [row('x', cost=900), row('y', cost=900, pos=NUM), row('xy', cost=100, a='0/1'), row('z', cost=900, pos=VERB)]


def own(k, j=0):
    return ['名詞', '固有名詞', '利用者%d' % k, '種%d' % j, '*', '*']


def contents(k, kind):
    """Rows of the k-th user dictionary; every word is found nowhere else."""
    c = 'abcdefghijklmnopqrst'[k]
    if kind == 'none':      # no part of speech of its own
        return [row(c + '1', pos=NUM), row(c + '2', pos=VERB, c='U0/0', norm='n' + c), row(c + '1x', pos=POS, a='U0/0', b='U0/0', dform='1', cost=-500)]
    if kind == 'one':       # own and shared ones
        return [row(c + '1', pos=own(k)), row(c + '2', pos=SHARED, norm='n' + c), row(c + '1' + c + '2', pos=POS, a='U0/U1', b='U0/U1', dform='0', cost=-900),
                row(c + '1x', pos=own(k), a='U0/0', b='U0/0', c='U1/2', cost=-500, syn=str(k))]
    # 'two': several of its own, the system ones first
    return [row(c + '2', pos=VERB), row(c + '1', pos=SHARED), row(c + '3', pos=own(k, 1)), row(c + '4', pos=own(k, 2)),
            row('x' + c + '1', pos=own(k, 2), a='0/U1', b='*', cost=-700), row(c + '3' + c + '4', pos=own(k, 1), a='U2/U3', b='U2/U3', cost=-700, dform='3')]


def made(S, k, kind):
    rows = contents(k, kind)
    img = user_bytes(S, rows, BASE, full_matrix(1))
    if kind == 'none' and k % 2:
        img = (0xa50f31188bd211e7).to_bytes(8, 'little') + without_grammar(img)[8:]
        rows = [r[:18] + ['*'] for r in rows]
        S.reach('no table')
    return rows, img


def ids(text, d):
    return [] if text == '*' else [d << 28 | int(u[1:]) if u.startswith('U') else int(u) for u in text.split('/')]


def verify(S, dic, tok, dics, d, i):
    """Word i of dictionary d (0: the system dictionary) against its row."""
    M = modes(S)
    r = dics[d][i]
    ml = tok.tokenize(r[0])
    S.check(len(ml) == 1, 'the word is found')
    m = ml[0]
    S.check(m.dictionary_id() == d, 'a word reports its dictionary')
    S.check(m.word_id() == d << 28 | i, 'a word keeps its identity')
    S.check(not m.is_oov(), 'a word of a dictionary is known')
    S.check(list(m.part_of_speech()) == r[5:11], 'a word reports the part of speech its row names')
    S.reach('own part of speech' if r[7].startswith('利用者') else 'shared part of speech' if r[5:11] == SHARED else 'system part of speech')
    S.check(m.normalized_form() == r[12], 'a word reports its own row')
    S.check(m.dictionary_form() == (r[4] if r[13] == '*' else dics[d][int(r[13])][4]), 'a word reports its own row')
    S.check(list(m.synonym_group_ids()) == ([] if r[18] == '*' else [int(x) for x in r[18].split('/')]), 'a word reports its own row')
    w = dic.lexicon.get_word_info(d << 28 | i)
    for got, k in ((w.a_unit_split, 15), (w.b_unit_split, 16), (w.word_structure, 17)):
        S.check(list(got) == ids(r[k], d), 'units lead to the words the dictionary meant')
    for mode, k in (('A', 15), ('B', 16)):
        want = ids(r[k], d)
        if not want:
            continue
        parts = list(m.split(M[mode]))
        S.check([p.word_id() for p in parts] == want, 'units lead to the words the dictionary meant')
        for p, u in zip(parts, want):
            q = dics[u >> 28][u & 0xFFFFFFF]
            S.reach('own units' if u >> 28 else 'system units')
            S.check(p.dictionary_id() == u >> 28, 'a unit reports its dictionary')
            S.check(list(p.part_of_speech()) == q[5:11] and p.normalized_form() == q[12] and p.surface() == q[0], 'a unit reports its own row')


def unknown(S, tok):
    m = tok.tokenize('?')[0]
    S.check(m.dictionary_id() == -1 and m.is_oov(), 'an unknown word belongs to no dictionary')
    S.reach('unknown word')


def load(S, picked):
    """Load dictionaries (number, kind) in this order."""
    S.put('s.dic', system_bytes(S, BASE, full_matrix(1)))
    names, dics = [], [BASE]
    for n, (k, kind) in enumerate(picked):
        rows, img = made(S, k, kind)
        dics.append(rows)
        names.append('u%d.dic' % n)
        S.put(names[-1], img)
    return dictionary(S, system='s.dic', users=names, chardef='DEFAULT 0 1 0\n'), dics


def order(S, kinds, n, queries):
    """Dictionaries of any kinds in any order, queried in any order."""
    picked = []
    for i in range(n):
        picked.append((i, S.choice('kind%d' % i, kinds)))
    if S.bool('reversed'):
        picked.reverse()
    d, dics = load(S, picked)
    tok = d.create()
    words = [(x, y) for x in range(len(dics)) for y in range(len(dics[x]))]
    rot = S.choice('first', range(queries)) * len(words) // queries
    words = words[rot:] + words[:rot]
    for x, y in words:
        verify(S, d, tok, dics, x, y)
        unknown(S, tok)


def any_two(S, kinds):
    """Any two queries after each other."""
    picked = [(i, k) for i, k in enumerate(kinds)]
    d, dics = load(S, picked)
    tok = d.create()
    words = [(x, y) for x in range(len(dics)) for y in range(len(dics[x]))]
    for q in ('one', 'two'):
        x, y = words[S.concrete(S.int(q, 0, len(words) - 1))]
        verify(S, d, tok, dics, x, y)


def up_to(S, top):
    """Any allowed number of dictionaries, and one more."""
    n = S.concrete(S.int('n', 0, top + 1))
    kinds = S.choice('kinds', [('one', 'two'), ('two', 'none', 'one')])
    picked = [(i, kinds[i % len(kinds)]) for i in range(n)]
    try:
        d, dics = load(S, picked)
    except ValueError as e:
        S.check(n > top, 'any allowed number of user dictionaries is loaded')
        S.observe('error', type(e).__name__)
        S.reach('too many')
        return
    S.check(n <= top, 'more dictionaries are refused')
    tok = d.create()
    for x in range(len(dics)):
        for y in range(len(dics[x])):
            verify(S, d, tok, dics, x, y)
    unknown(S, tok)


def lookups(S, n):
    """Ids given by lookups, ids and costs."""
    picked = [(i, ['one', 'two'][i % 2]) for i in range(n)]
    d, dics = load(S, picked)
    x = S.concrete(S.int('dic', 0, n))
    y = S.concrete(S.int('word', 0, 5))
    S.assume(y < len(dics[x]))
    r = dics[x][y]
    lex = d.lexicon
    got = [w for w, e in lex.lookup(r[0].encode('utf-8'), 0) if e == len(r[0])]
    S.check(got == [x << 28 | y], 'a lookup gives the id of the word')
    w = got[0]
    S.check([lex.get_left_id(w), lex.get_right_id(w), lex.get_cost(w)] == [int(c) for c in r[1:4]], 'an id leads to the parameters of the word')
    S.check(lex.get_dictionary_id(w) == x, 'an id tells the dictionary')
    S.check(list(d.grammar.get_part_of_speech_string(lex.get_word_info(w).pos_id)) == r[5:11], 'a word reports the part of speech its row names')
    pid = lex.get_word_info(w).pos_id
    if x == 0:
        S.check(lex.get_word_id(r[4], pid, r[11]) == w, 'a word is found by its description')


def twice(S):
    """The same file loaded several times."""
    S.put('s.dic', system_bytes(S, BASE, full_matrix(1)))
    kinds = ['one', 'two', 'none']
    a = S.choice('a', kinds)
    rows, img = made(S, 2, a)
    other, img2 = made(S, 0, 'one')
    S.put('u0.dic', img)
    S.put('u1.dic', img2)
    d = dictionary(S, system='s.dic', users=('u0.dic', 'u1.dic', 'u0.dic'), chardef='DEFAULT 0 1 0\n')
    S.reach('same file twice')
    for i, r in enumerate(rows):
        got = sorted(w for w, e in d.lexicon.lookup(r[0].encode('utf-8'), 0) if e == len(r[0]))
        S.check(got == [1 << 28 | i, 3 << 28 | i], 'the words of each dictionary keep their identity')
        for w in got:
            info = d.lexicon.get_word_info(w)
            S.check(list(d.grammar.get_part_of_speech_string(info.pos_id)) == r[5:11], 'a word reports the part of speech its row names')
            S.check(list(info.a_unit_split) == ids(r[15], w >> 28), 'units lead to the words the dictionary meant')


def any_pos(S, sizes, flip=False):
    """Words of several dictionaries with any of the parts of speech their
    dictionary knows."""
    sys_pos = [POS, NUM, VERB]
    base = system_bytes(S, BASE, full_matrix(1))
    S.put('s.dic', base)
    names, picks = [], []
    for d, n in enumerate(sizes):
        rows = [row('w%d' % d)] + [row('v%d%d' % (d, j), pos=own(d, j)) for j in range(n)]
        img = user_bytes(S, rows, BASE, full_matrix(1))
        lay = layout(img)
        p = S.int('pos%d' % d, 0, len(sys_pos) + n - 1)
        S.put('u%d.dic' % d, patched(img, {info_at(img, lay, 0)[0]: p}))
        names.append('u%d.dic' % d)
        picks.append(p)
    dic = dictionary(S, system='s.dic', users=names, chardef='DEFAULT 0 1 0\n')
    order = list(range(len(sizes)))
    if flip:
        order.reverse()
    total = len(sys_pos)
    before = []
    for n in sizes:
        before.append(total)
        total += n
    for _ in range(2):
        for d in order:
            pid = dic.lexicon.get_word_info((d + 1) << 28).pos_id
            S.check(pid == S.ite(picks[d] < 3, picks[d], picks[d] - 3 + before[d]), 'a word reports the part of speech its row names')
            # an id of the grammar names the same part of speech
            for j in range(sizes[d]):
                S.check(dic.lexicon.get_word_info((d + 1) << 28 | (j + 1)).pos_id == before[d] + j, 'a word reports the part of speech its row names')
                S.check(list(dic.grammar.get_part_of_speech_string(before[d] + j)) == own(d, j), 'the parts of speech of a dictionary are kept')
    for i, x in enumerate(sys_pos):
        S.check(list(dic.grammar.get_part_of_speech_string(i)) == x, 'the parts of speech of the system dictionary are kept')
    S.reach('own part of speech')


def any_units(S, dicts, fixed=(), lens=(2, 3, 2)):
    """Words with any two units of the system dictionary or their own one."""
    S.put('s.dic', system_bytes(S, BASE, full_matrix(1)))
    names, picks = [], []
    for d in range(dicts):
        rows = [row('w%d' % d, a='/'.join('01201'[:lens[0]]), b='/'.join('01201'[:lens[1]]), c='/'.join('01201'[:lens[2]]))] + [row('v%d%d' % (d, j)) for j in range(3)]
        img = user_bytes(S, rows, BASE, full_matrix(1))
        at = info_at(img, layout(img), 0)[1]
        patch, pick = {}, []
        for k, n in enumerate(lens):
            at += 1
            us = []
            for i in range(n):
                if k in fixed:
                    u, x = i % 2 == 0, i % 4
                else:
                    u = S.bool('own%d%d%d' % (d, k, i))
                    x = S.int('id%d%d%d' % (d, k, i), 0, 3)
                patch[at] = x
                patch[at + 2] = S.ite(u, 0x1000, 0)
                us.append(S.ite(u, ((d + 1) << 28) + x, x))
                at += 4
            pick.append(us)
        S.put('u%d.dic' % d, patched(img, patch))
        names.append('u%d.dic' % d)
        picks.append(pick)
    dic = dictionary(S, system='s.dic', users=names, chardef='DEFAULT 0 1 0\n')
    for d in list(range(dicts)) + list(range(dicts)):
        w = dic.lexicon.get_word_info((d + 1) << 28)
        S.check(S.same([list(w.a_unit_split), list(w.b_unit_split), list(w.word_structure)], picks[d]), 'units lead to the words the dictionary meant')
    S.reach('own units')


def again(S, n):
    """A word read again after very many others."""
    base = BASE + [row('r%d' % i) for i in range(n)]
    S.put('s.dic', system_bytes(S, base, full_matrix(1)))
    for k in range(2):
        S.put('u%d.dic' % k, user_bytes(S, [row('w%d' % k, pos=own(k), a='0/U0', b='U1/U0'), row('v%d' % k, pos=own(k, 1))], base, full_matrix(1)))
    d = dictionary(S, system='s.dic', users=('u0.dic', 'u1.dic'), chardef='DEFAULT 0 1 0\n')
    x = S.choice('dictionary', [1, 2])
    for rounds in range(3):
        w = d.lexicon.get_word_info(x << 28)
        S.check(list(d.grammar.get_part_of_speech_string(w.pos_id)) == own(x - 1), 'a word reports the part of speech its row names')
        S.check(list(w.a_unit_split) == [0, x << 28] and list(w.b_unit_split) == [x << 28 | 1, x << 28], 'units lead to the words the dictionary meant')
        for i in range(n if rounds < 2 else 0):
            d.lexicon.get_word_info(i)


def cases(tier):
    q = tier == 'quick'
    out = [
        case('order', order, 'two dictionaries of any of 3 kinds either way round, 2 orders of queries', args=dict(kinds=['none', 'one', 'two'], n=2, queries=2)),
        case('order-3', order, 'three dictionaries of any of 2 kinds either way round', args=dict(kinds=['one', 'two'], n=3, queries=1)),
        case('any-two', any_two, 'any two queries of three dictionaries', args=dict(kinds=['one', 'none', 'two'])),
        case('up-to', up_to, '0 to 16 user dictionaries', args=dict(top=15)),
        case('any-pos', any_pos, 'a word of each of 3 dictionaries, with any part of speech known to it', args=dict(sizes=(2, 1, 3))),
        case('any-pos-flip', any_pos, 'the same read in the other order, a dictionary without own ones', args=dict(sizes=(0, 3, 2, 0, 1), flip=True)),
        case('any-units', any_units, 'a word with any 7 units', args=dict(dicts=1)),
        case('any-units-a', any_units, 'a word of each of 3 dictionaries, with any 2 units for A', args=dict(dicts=3, fixed=(1, 2))),
        case('any-units-bc', any_units, 'a word of each of 2 dictionaries, with any 3 units for B', args=dict(dicts=2, fixed=(0, 2))),
        case('any-units-5', any_units, 'a word of each of 2 dictionaries, with any 5 units for B', args=dict(dicts=2, fixed=(0, 2), lens=(5, 5, 4))),
        case('lookups', lookups, 'any word of 6 user dictionaries', args=dict(n=6)),
        case('again', again, 'a word of either of two dictionaries read again after 1100 others', args=dict(n=1100)),
        case('twice', twice, 'a file of any of 3 kinds loaded twice', args={}),
    ]
    if not q:
        out += [
            case('order-4', order, 'four dictionaries of any of 3 kinds, 3 orders of queries', args=dict(kinds=['none', 'one', 'two'], n=4, queries=3)),
            case('any-two-5', any_two, 'any two queries of five dictionaries', args=dict(kinds=['one', 'none', 'two', 'two', 'one'])),
            case('any-pos-15', any_pos, 'a word of each of 15 dictionaries', args=dict(sizes=(1, 2, 0, 3, 1) * 3)),
            case('any-units-4', any_units, 'a word of each of 5 dictionaries, with any 2 units for C', args=dict(dicts=5, fixed=(0, 1))),
            case('any-units-ab', any_units, 'a word of each of 2 dictionaries, with any 5 units', args=dict(dicts=2, fixed=(2,))),
            case('lookups-15', lookups, 'any word of 15 user dictionaries', args=dict(n=15)),
        ]
    return out
