"""C23: katakana joining merges whole katakana runs around unknown or short words."""
from common import (case, row, dictionary, system_bytes, full_matrix, facts, any_text, runs_of, starts, Grammar, MECAB, SIMPLE, KATAJOIN, POS, SYM, CATCH)

ASSUMPTIONS = [
    'a token is katakana when its characters are in one run of the text (C03) and share the category',
    'where several candidates have exactly the extent of the run any of them may be taken',
    'in the direct cases categories, tokens and candidates are arbitrary; the lattice and its nodes are the real ones',
]
REQUIRED = ['joined', 'new token', 'existing candidate', 'not first', 'no run', 'single token', 'long words only', 'other tokens', 'trigger left out']
JOINED = ['名詞', '固有名詞', '一般', '*', '*', '*']


def expected(S, toks):
    """toks: (katakana, unknown or short, may start an unknown word); the
    ranges of tokens that become one."""
    out = []
    i = 0
    while i < len(toks):
        if not toks[i][0]:
            i += 1
            S.reach('other tokens')
            continue
        j = i
        while j < len(toks) and toks[j][0]:
            j += 1
        if any([bool(t[1]) for t in toks[i:j]]):
            b = i
            while b < j and not toks[b][2]:
                b += 1
                S.reach('not first')
            if j - b > 1:
                out.append((b, j))
                S.reach('joined')
                if not any([bool(t[1]) for t in toks[b:j]]):
                    S.reach('trigger left out')
            else:
                S.reach('single token' if j - i == 1 else 'no run')
        else:
            S.reach('long words only')
        i = j
    return out


class PosGrammar(Grammar):
    def get_part_of_speech_id(self, pos):
        return 9 if list(pos) == JOINED else -1


def compositions(n):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in compositions(n - k)]


def alone(S, n, widths, cats, top, extra=True, cuts=None, known=''):
    """The plugin with any tokens."""
    inp, text, sets, cs, C = any_text(S, n, widths, cats, grammar=PosGrammar)
    for k, q in enumerate(known):
        if q != '*':
            S.assume(S.and_(S.same(C.KATAKANA in sets[k], q == 'K'), S.same(C.SYMBOL in sets[k], q == 'S')))
    size = S.choice('cuts', cuts or compositions(n))
    start = starts(text)
    runs = runs_of(S, sets, cs)
    S.put('s.dic', system_bytes(S, [row('zz')], full_matrix(1)))
    g = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary.from_system_dictionary(S.path('s.dic')).grammar
    lat = S.load('sudachipy.lattice').Lattice(g)
    lat.resize(start[n])
    L = S.load('sudachipy.latticenode').LatticeNode
    W = S.load('sudachipy.dictionarylib.wordinfo').WordInfo

    def node(i, j, k, oov, cost, pos=2):
        x = L()
        x.set_parameter(0, 0, cost)
        if oov:
            x.set_oov()
        x.set_word_info(W(surface=text[i:j], head_word_length=start[j] - start[i], pos_id=pos, normalized_form='の%d' % k, dictionary_form_word_id=-1,
                          dictionary_form='じ%d' % k, reading_form='よ%d' % k, a_unit_split=[], b_unit_split=[], word_structure=[], synonym_group_ids=[]))
        lat.insert(start[i], start[j], x)
        return x
    limit = S.int('min', 0, top)
    path, toks, places = [], [], [0]
    for k, c in enumerate(size):
        i = places[-1]
        j = i + c
        oov = S.bool('oov%d' % k)
        path.append(node(i, j, k, oov, 100))
        kata = S.and_(runs[i] >= j, *[C.KATAKANA in sets[x] for x in range(i, j)])
        toks.append((bool(kata), S.or_(oov, c < limit), C.NOOOVBOW not in sets[i]))
        places.append(j)
    also = {}
    if extra and len(size) > 1:
        spans = [(x, y) for x in range(len(size)) for y in range(x + 2, len(size) + 1)]
        q = S.concrete(S.int('also', -1, len(spans) - 1))
        if q >= 0:
            x, y = spans[q]
            also[x, y] = [node(places[x], places[y], 50, False, S.int('cost', 0, 2), S.int('pos', 8, 9)), node(places[x], places[y], 51, True, 1)]
    old = list(path)
    p = S.load('sudachipy.plugin.path_rewrite').JoinKatakanaOovPlugin(dict(KATAJOIN, oovPOS=JOINED, minLength=limit))
    p.set_up(PosGrammar(None))
    p.rewrite(inp, path, lat)
    want = expected(S, toks)
    at = 0
    out = []
    for x in path:
        if at < len(old) and x is old[at]:
            out.append((at, at + 1))
            at += 1
            continue
        b = [k for k in range(len(places)) if start[places[k]] == x.get_begin()]
        e = [k for k in range(len(places)) if start[places[k]] == x.get_end()]
        S.check(len(b) == 1 and len(e) == 1 and b[0] == at and e[0] > at, 'the tokens still cover the same text')
        at = e[0]
        r = (b[0], e[0])
        out.append(r)
        S.check(r in want, 'other tokens keep their identity and order')
        if r in also:
            S.check(any([x is y for y in also[r]]), 'a candidate with exactly that extent is used')
            S.reach('existing candidate')
            continue
        w = x.get_word_info()
        surface = text[places[r[0]]:places[r[1]]]
        S.check(x.is_oov() and w.pos_id == 9, 'a new token is out-of-vocabulary and has the configured part of speech')
        S.check(S.and_(S.same(w.surface, surface), S.same(w.normalized_form, surface), S.same(w.dictionary_form, surface)), 'a new token has the surface of the run')
        S.check(w.head_word_length == x.get_end() - x.get_begin() and w.reading_form == '' and not w.a_unit_split and not w.b_unit_split,
                'a new token has the surface of the run')
        S.reach('new token')
    S.observe('path', out)
    S.check(at == len(old), 'the tokens still cover the same text')
    S.check([r for r in out if r[1] - r[0] > 1] == want, 'every run around an unknown or short word becomes one token')


# -------------------------------------------------------------- end to end --
WORDS = [row('ア', cost=400), row('アイ', cost=300), row('アイー', cost=9000), row('ウエオ', cost=200), row('アイウエオ', cost=9000), row('あ', cost=100),
         row('イ', cost=380), row('ーア', cost=100), row('カ', surface='カカカカカ', cost=100), row('zzz', left=-1, pos=SYM), row('zzy', left=-1, pos=CATCH), row('zzx', left=-1, pos=JOINED)]
CHARDEF = '''DEFAULT 0 1 0
KATAKANA %d %d %d
HIRAGANA 0 1 0
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0xFF66..0xFF9D KATAKANA
0x30FC HIRAGANA KATAKANA NOOOVBOW
0x30A8 NOOOVBOW
'''
KATA = 'アイウエオーｱカ'


def end_to_end(S, doms, rule=(0, 1, 0), limit=None, before='', after=''):
    S.put('system.dic', system_bytes(S, WORDS, full_matrix(1, 10)))
    unk = ''.join('%s,0,0,%d,%s\n' % (c, 1200, ','.join(SYM)) for c in ('KATAKANA', 'HIRAGANA', 'DEFAULT'))
    join = {'class': KATAJOIN['class'], 'oovPOS': JOINED}
    if limit is not None:
        join['minLength'] = limit
    oov = (MECAB, dict(SIMPLE, oovPOS=CATCH))
    raw = dictionary(S, oov=oov, chardef=CHARDEF % rule, unk=unk).create()
    tok = dictionary(S, oov=oov, path=(join,), chardef=CHARDEF % rule, unk=unk).create()
    text = before
    for i, d in enumerate(doms):
        text += S.char('t%d' % i, d)
    text += after
    a = list(raw.tokenize(text))
    c = list(tok.tokenize(text))
    cats = []
    for x in text:
        if S.same(x, 'ー'):
            cats.append({'HIRAGANA', 'KATAKANA', 'NOOOVBOW'})
        elif S.same(x, 'エ'):
            cats.append({'KATAKANA', 'NOOOVBOW'})
        elif any([bool(S.same(x, k)) for k in KATA]):
            cats.append({'KATAKANA'})
        elif S.same(x, 'あ'):
            cats.append({'HIRAGANA'})
        else:
            cats.append({'DEFAULT'})
    runs = runs_of(S, cats, ['DEFAULT', 'KATAKANA', 'HIRAGANA', 'NOOOVBOW'])
    toks = []
    for m in a:
        b, e = m.begin(), m.end()
        kata = runs[b] >= e and all(['KATAKANA' in cats[k] for k in range(b, e)])
        toks.append((kata, m.is_oov() or e - b < (1 if limit is None else limit), 'NOOOVBOW' not in cats[b]))
    want = expected(S, toks)
    places = [m.begin() for m in a] + [len(text)]
    at = 0
    out = []
    for m in c:
        S.check(m.begin() == places[at], 'the tokens still cover the same text')
        if m.end() == places[at + 1] and S.same(facts(m), facts(a[at])):
            out.append((at, at + 1))
            at += 1
            continue
        S.check(m.end() in places[at + 1:], 'the tokens still cover the same text')
        r = (at, places.index(m.end()))
        S.check(r in want, 'other tokens keep their identity and order')
        out.append(r)
        at = r[1]
        s = text[m.begin():m.end()]
        S.check(S.same(m.surface(), s), 'a new token has the surface of the run')
        known = [i for i, w in enumerate(WORDS) if S.same(w[0], s)]
        if m.is_oov():
            S.check(m.part_of_speech() != JOINED or not known, 'a candidate with exactly that extent is used')
            S.check(m.part_of_speech() in (JOINED, SYM, CATCH), 'a new token is out-of-vocabulary and has the configured part of speech')
            S.check(any([bool(S.same(x, 'カ')) for x in s]) or S.same(m.normalized_form(), s) and S.same(m.dictionary_form(), s) and m.reading_form() == '', 'a new token has the surface of the run')
            S.reach('new token')
        else:
            S.check([m.word_id()] == known, 'a candidate with exactly that extent is used')
            S.reach('existing candidate')
    S.observe('path', out)
    S.check(at == len(a), 'the tokens still cover the same text')
    S.check([r for r in out if r[1] - r[0] > 1] == want, 'every run around an unknown or short word becomes one token')


def cases(tier):
    q = tier == 'quick'
    out = [
        case('alone-2', alone, '2 characters of any of 3 categories, any tokens, candidates, least length', args=dict(n=2, widths=[1, 3], cats=['KATAKANA', 'NOOOVBOW', 'HIRAGANA'], top=3)),
        case('alone-3', alone, '3 one-character tokens, KATAKANA, NOOOVBOW or ALPHA', args=dict(n=3, widths=[3], cats=['KATAKANA', 'NOOOVBOW', 'ALPHA'], top=2, cuts=[(1, 1, 1)], extra=False)),
        case('alone-4', alone, '4 characters, KATAKANA or not, tokens of 1 and 2 characters, any candidate', args=dict(n=4, widths=[3], cats=['KATAKANA', 'SYMBOL'], top=2, cuts=[(1, 1, 2), (2, 1, 1)])),
        case('alone-6', alone, '5 and 6 tokens, most of them katakana', args=dict(n=6, widths=[3], cats=['KATAKANA', 'SYMBOL'], top=1, cuts=[(1, 1, 1, 1, 2), (1, 1, 1, 1, 1, 1)], extra=False, known='K**KKK')),
        case('text-3', end_to_end, '3 characters through the tokenizer, least length 3', args=dict(doms=['アイーあエ'] * 3, limit=3)),
        case('text-after', end_to_end, '3 characters behind katakana, no least length', args=dict(doms=['アイウオ'] + ['ーｱxエ'] * 2, before='ア')),
        case('text-run', end_to_end, '2 characters behind and before 100 katakana, least length 30', args=dict(doms=['アイーあエ'] * 2, before='あエ' + 'アイ' * 50, after='アイ', limit=30)),
        case('text-shown', end_to_end, '3 characters, one of a word that is shown by a longer string, least length 2', args=dict(doms=['カイー'] * 3, limit=2, after='ウエオカ')),
        case('text-words', end_to_end, 'candidates of 1 and 2 characters, least length 2', args=dict(doms=['アイーあ'] * 3, rule=(1, 0, 2), limit=2)),
        case('text-five', end_to_end, '3 characters before ウエオ', args=dict(doms=['アイー'] * 3, after='ウエオ', limit=4)),
    ]
    if not q:
        out += [
            case('alone-3-all', alone, '3 characters of any of 2 categories, any tokens and candidate', args=dict(n=3, widths=[3], cats=['KATAKANA', 'NOOOVBOW', 'ALPHA'], top=3)),
            case('alone-5', alone, '5 characters, KATAKANA or not, any tokens of 1 and 2 characters', args=dict(
                n=5, widths=[2], cats=['KATAKANA', 'SYMBOL'], top=2, cuts=[(1, 1, 1, 1, 1), (1, 2, 1, 1), (2, 2, 1)])),
            case('text-4', end_to_end, '4 characters through the tokenizer, least length 3', args=dict(doms=['アイーあエ'] * 4, limit=3)),
            case('text-all', end_to_end, '4 characters, candidates of 1 and 2 characters', args=dict(doms=['アイーあ'] * 4, rule=(1, 1, 2), limit=2)),
        ]
    return out
