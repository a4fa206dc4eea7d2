"""C22: numeric joining merges whole numbers and nothing else."""
from common import case, row, dictionary, system_bytes, full_matrix, facts, draw, Numeral, Grammar, starts, KANJI, SMALL, LARGE, MECAB, SIMPLE, NUMJOIN, POS, NUM, SYM

ASSUMPTIONS = [
    'a token is numeric when all its characters share a numeric category or its normalized form is a comma or a point',
    'completeness is claimed for runs that read as a number as they stand, before a comma or point behind them, and for digits between '
    'commas (points) that cannot continue the number before them; where the commas are found wrong only at the end of a run nothing needs to be joined',
    'categories in the direct cases come from a stand-in',
]
REQUIRED = ['whole run joined', 'single token', 'comma behind', 'point behind', 'starts with no numeral', 'pieces', 'no number', 'other tokens', 'unnormalized']
NUMERAL, OTHER = 3, 5


class Tok:
    """A token before joining: what is fed to a number, and what it reports."""

    def __init__(self, surface, norm, feeds, pos, numeric):
        self.surface, self.norm, self.feeds, self.pos, self.numeric = surface, norm, feeds, pos, numeric
        self.mark = feeds[0][0] if len(feeds) == 1 and feeds[0][0] in ',.' else None


def value(S, toks):
    """Code points of the normalized number, or None."""
    if not toks:
        return None
    ref = Numeral(S)
    for t in toks:
        for kind, v in t.feeds:
            if kind == 'x':
                return None
            ref.feed(kind, v)
    return ref.finish()


def blocks(toks):
    out = []
    b = None
    for i, t in enumerate(toks + [None]):
        if t is not None and (t.numeric or t.mark):
            b = i if b is None else b
        elif b is not None:
            out.append((b, i))
            b = None
    return out


def broken(S, toks, mark):
    """Whether some mark cannot continue the number before it."""
    for i, t in enumerate(toks):
        if t.mark == mark:
            ref = Numeral(S)
            for u in toks[:i + 1]:
                for kind, v in u.feeds:
                    ref.feed(kind, v)
            if ref.dead:
                return True
    return False


def must(S, toks, b, e):
    """The runs of [b, e) that are numbers for certain, or None when nothing
    is claimed."""
    part = toks[b:e]
    if value(S, part) is not None:
        return [(b, e)]
    last = part[-1].mark
    rest = part[:-1]
    plain = all([k == 'd' for t in part for k, v in t.feeds if k not in ',.'])
    has = [t.mark for t in rest]
    if last and rest and '.' not in has and (last == '.' or ',' not in has or plain) and not any([k in ',.' for t in rest if not t.mark for k, v in t.feeds]):
        if value(S, rest) is not None:
            S.reach('comma behind' if last == ',' else 'point behind')
            return [(b, e - 1)]
    marks = set([t.mark for t in part if t.mark])
    if plain and len(marks) == 1 and all([len(t.mark or '') == len([1 for k, v in t.feeds if k in ',.']) for t in part]):
        m = marks.pop()
        if broken(S, part, m):
            S.reach('pieces')
            out = []
            at = b
            for i in range(b, e + 1):
                if i == e or toks[i].mark == m:
                    if i > at:
                        out.append((at, i))
                    at = i + 1
            return out
    return None


def verify(S, toks, got, normalize):
    """got: for every token of the result its range of tokens, whether it is
    one of the tokens that were there, and its normalized form."""
    at = 0
    new = {}
    for b, e, kept, norm in got:
        S.check(b == at and e > b, 'tokens keep their order and cover the same text')
        at = e
        if kept:
            S.check(e == b + 1, 'other tokens keep their identity')
        else:
            new[b, e] = norm
    S.check(at == len(toks), 'tokens keep their order and cover the same text')
    S.observe('joined', sorted(new))
    for (b, e), norm in new.items():
        part = toks[b:e]
        S.check(all([t.numeric or t.mark for t in part]), 'only numeric tokens are joined')
        v = value(S, part)
        S.check(v is not None, 'only a run that reads as a number is joined')
        S.check(S.and_(part[0].pos == NUMERAL), 'only a run that starts with a numeral is joined')
        if normalize:
            S.check(S.same(S.codes(norm), v), 'the normalized form is the normalized number')
        else:
            S.check(e - b > 1, 'a single token stays when normalization is off')
            whole = ''
            for t in part:
                whole += t.norm
            S.check(S.same(norm, whole), 'the normalized form is the concatenation when normalization is off')
            S.reach('unnormalized')
    for b, e in blocks(toks):
        runs = must(S, toks, b, e)
        if runs is None:
            S.reach('no number')
            continue
        inside = sorted([r for r in new if b <= r[0] < e])
        want = []
        for x, y in runs:
            if not toks[x].pos == NUMERAL:
                S.reach('starts with no numeral')
                continue
            if y - x > 1:
                want.append((x, y))
                S.reach('whole run joined')
            else:
                S.reach('single token')
                if normalize and not S.same(S.codes(toks[x].norm), value(S, toks[x:y])):
                    want.append((x, y))
        S.check(inside == want, 'a whole number becomes one token and nothing else does')
    if any([not t.numeric and not t.mark for t in toks]):
        S.reach('other tokens')


# --------------------------------------------------------- the plugin alone --
def token(S, i, kinds):
    k = S.choice('kind%d' % i, kinds)
    name = 't%d' % i
    pos = S.ite(S.bool(name + '.numeral'), NUMERAL, OTHER)
    if k in 'ak':
        t, kind, v = draw(S, name, [k])
        return Tok(t, t, [(kind, v)], pos, True)
    if k == 'n':        # a kanji digit with any digit for its normalized form
        t, _, _ = draw(S, name, ['k'])
        u, kind, v = draw(S, name + 'n', ['a'])
        return Tok(t, u, [(kind, v)], pos, True)
    if k == 'A':        # two digits
        t, kind, v = draw(S, name, ['a'])
        u, _, w = draw(S, name + 'b', ['a'])
        return Tok(t + u, t + u, [(kind, v), (kind, w)], pos, True)
    if k == 'T':        # three digits
        ds = [draw(S, name + c, ['a']) for c in 'xyz']
        t = ds[0][0] + ds[1][0] + ds[2][0]
        return Tok(t, t, [(d[1], d[2]) for d in ds], pos, True)
    if k == 'L':        # six digits
        (t, _, v), (u, _, w) = draw(S, name + 'x', ['a']), draw(S, name + 'y', ['a'])
        t = t + '0234' + u
        return Tok(t, t, [('d', d) for d in (v, 0, 2, 3, 4, w)], pos, True)
    if k == 'M':        # fourteen digits
        (t, _, v), (u, _, w) = draw(S, name + 'x', ['a']), draw(S, name + 'y', ['a'])
        return Tok(t + '000340607089' + u, t + '000340607089' + u, [('d', d) for d in [v, 0, 0, 0, 3, 4, 0, 6, 0, 7, 0, 8, 9, w]], pos, True)
    if k in '789':
        return Tok(k, k, [('d', int(k))], pos, True)
    if k in '前後':     # a digit before (behind) another character, with a digit for its normalized form
        u, kind, v = draw(S, name, ['a'])
        return Tok('1あ' if k == '前' else 'あ1', u, [(kind, v)], pos, False)
    if k == 'x':
        return Tok('あ', 'あ', [('x', 0)], OTHER, False)
    if k == '点':       # a character whose normalized form is a point
        return Tok('点', '.', [('.', 0)], pos, False)
    if k == 'w':        # any normalized form
        u = S.text(name, 2, '0,.x十')
        fs = []
        for c in u:
            fs.append(('d', 0) if S.same(c, '0') else ('s', 1) if S.same(c, '十') else ('x', 0) if S.same(c, 'x') else (',', 0) if S.same(c, ',') else ('.', 0))
        return Tok('1', u, fs, pos, True)
    if k == '読':       # one whose normalized form is a comma
        return Tok('読', ',', [(',', 0)], pos, False)
    if k in SMALL:
        return Tok(k, k, [('s', SMALL[k])], pos, True)
    if k in LARGE:
        return Tok(k, k, [('l', LARGE[k])], pos, True)
    return Tok(k, k, [(k, 0)], pos, False)


class PosGrammar(Grammar):
    def get_part_of_speech_id(self, pos):
        return NUMERAL if list(pos) == NUM else OTHER


def alone(S, n, kinds, first=None, normalize=True, before='', slots=None):
    C = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    L = S.load('sudachipy.latticenode').LatticeNode
    W = S.load('sudachipy.dictionarylib.wordinfo').WordInfo

    def types(cp):
        if S.and_(48 <= cp, cp <= 57):
            return {C.NUMERIC}
        if S.or_(*[cp == ord(k) for k in KANJI + ''.join(SMALL) + ''.join(LARGE)]):
            return {C.KANJI, C.KANJINUMERIC}
        return {C.SYMBOL}
    toks = [Tok('あ', 'あ', [('x', 0)], OTHER, False)] if before else []
    for i in range(n):
        toks.append(token(S, i, slots[i] if slots else kinds if i or first is None else first))
    text = ''
    for t in toks:
        text += t.surface
    inp = S.load('sudachipy.utf8inputtextbuilder').UTF8InputTextBuilder(text, PosGrammar(types)).build()
    # unknown words have no reading
    readings = ['' if i % 3 == 1 else 'よ%d' % i for i in range(len(toks))]
    path, places = [], [0]
    for i, t in enumerate(toks):
        size = len(t.surface.encode('utf-8'))
        node = L()
        node.set_parameter(1, 2, 3)
        node.set_range(places[-1], places[-1] + size)
        node.set_word_info(W(surface=t.surface, head_word_length=size, pos_id=t.pos, normalized_form=t.norm, dictionary_form_word_id=7,
                             dictionary_form='じ%d' % i, reading_form=readings[i], a_unit_split=[1, 2], b_unit_split=[3, 4], word_structure=[5, 6],
                             synonym_group_ids=[8]))
        places.append(places[-1] + size)
        path.append(node)
    old = list(path)
    P = S.load('sudachipy.plugin.path_rewrite').JoinNumericPlugin
    p = P({'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': normalize} if not normalize or n % 2 else None)
    p.set_up(PosGrammar(None))
    p.rewrite(inp, path, S.load('sudachipy.lattice').Lattice)
    got = []
    at = 0
    for node in path:
        b, e = node.get_begin(), node.get_end()
        S.check(b == places[at], 'tokens keep their order and cover the same text')
        if at < len(toks) and node is old[at]:
            S.check(e == places[at + 1], 'other tokens keep their identity')
            got.append((at, at + 1, True, None))
            at += 1
            continue
        S.check(any([e == x for x in places[at + 1:]]), 'a joined token has the extent of its run')
        to = [x for x in range(at + 1, len(places)) if places[x] == e][0]
        w = node.get_word_info()
        S.check(S.same(w.surface, text[inp.get_offset_text_length(b):inp.get_offset_text_length(e)]), 'a joined token has the surface of its run')
        S.check(w.reading_form == ''.join(readings[at:to]), 'a joined token has the reading of its run')
        S.check(w.head_word_length == e - b, 'a joined token has the extent of its run')
        S.check(S.and_(w.pos_id == NUMERAL), 'a joined token is a numeral')
        S.check(not node.is_oov() and not w.a_unit_split and not w.b_unit_split and not w.synonym_group_ids, 'a joined token has no units')
        got.append((at, to, False, w.normalized_form))
        at = to
    verify(S, toks, got, normalize)


# -------------------------------------------------------------- end to end --
WORDS = [
    row('1', cost=100, pos=NUM, read='いち'), row('2', cost=100, pos=NUM, read='に'), row('0', cost=100, pos=NUM), row('12', cost=150, pos=NUM, read='じゅうに'),
    row(',', cost=200, pos=SYM, read='てん'), row('.', cost=200, pos=SYM), row('一', cost=100, pos=NUM, read='ひと', norm='一'), row('二', cost=100, pos=POS),
    row('十', cost=100, pos=NUM, read='とお'), row('千', cost=100, pos=NUM), row('万', cost=100, pos=NUM, read='よろず'), row('円', cost=100, read='えん'),
    row('二千', cost=120, pos=POS, norm='弐千', a='7/9', b='7/9'), row('三', cost=100, pos=NUM, norm='3'), row('2.', cost=400),
]


def dics(S, normalize):
    S.put('system.dic', system_bytes(S, WORDS, full_matrix(1, 10)))
    join = dict(NUMJOIN, enableNormalize=normalize)
    raw = dictionary(S, path=()).create()
    return raw, dictionary(S, path=(join,)).create()


def end_to_end(S, doms, normalize=True, before='', after=''):
    raw, tok = dics(S, normalize)
    text = before
    for i, d in enumerate(doms):
        text += S.char('t%d' % i, d)
    text += after
    a = list(raw.tokenize(text))
    c = list(tok.tokenize(text))
    toks = []
    for m in a:
        norm = m.normalized_form()
        feeds = []
        for x in norm:
            hit = [('d', v) for v in range(10) if S.same(x, '0123456789'[v])] or [('d', v) for v in range(10) if S.same(x, KANJI[v])]
            hit = hit or [('s', SMALL[k]) for k in SMALL if S.same(x, k)] or [('l', LARGE[k]) for k in LARGE if S.same(x, k)]
            feeds.append((hit or [(k, 0) for k in ',.' if S.same(x, k)] or [('x', 0)])[0])
        s = m.surface()
        numeric = all(['0' <= x <= '9' for x in s]) or all([x in '一二三千万十' for x in s])
        toks.append(Tok(s, norm, feeds, NUMERAL if m.part_of_speech() == NUM else OTHER, numeric))
    places = [m.begin() for m in a] + [len(text)]
    got = []
    at = 0
    for m in c:
        S.check(m.begin() == places[at], 'tokens keep their order and cover the same text')
        if m.end() == places[at + 1] and S.same(facts(m), facts(a[at])):
            got.append((at, at + 1, True, None))
            at += 1
            continue
        S.check(m.end() in places[at + 1:], 'a joined token has the extent of its run')
        to = places.index(m.end())
        S.check(S.same(m.surface(), text[m.begin():m.end()]), 'a joined token has the surface of its run')
        S.check(m.reading_form() == ''.join([x.reading_form() for x in a[at:to]]), 'a joined token has the reading of its run')
        S.check(m.part_of_speech() == NUM and not m.is_oov(), 'a joined token is a numeral')
        got.append((at, to, False, m.normalized_form()))
        at = to
    verify(S, toks, got, normalize)


def cases(tier):
    q = tier == 'quick'
    few = ['a', ',', '.', 'x']
    out = []
    for n in ((1, 2, 3) if q else (1, 2, 3, 4)):
        out.append(case('alone-%d' % n, alone, '%d tokens of any kind and part of speech' % n,
                        args=dict(n=n, kinds=['a', 'n', 'A', '十', '万', ',', '.', 'x', '点'][:9 if n < 3 else 8])))
    for n in ((4,) if q else (4, 5, 6)):
        out.append(case('digits-%d' % n, alone, '%d tokens: digits, commas, points, others, any parts of speech' % n, args=dict(n=n, kinds=few)))
    for n in ((5,) if q else (6, 7, 8)):
        out.append(case('commas-%d' % n, alone, '%d tokens: digits and commas, behind another' % n, args=dict(n=n, kinds=['a', ','], before='x')))
        out.append(case('points-%d' % n, alone, '%d tokens: digits and points' % n, args=dict(n=n, kinds=['a', '.'])))
    two = [['a', ',', '.']] * 3 + [['x']] + [['a'], [',', '.'], ['a', 'T']]
    out.append(case('two', alone, '3 digits, commas and points, another token, and a digit, a comma or point and one or three digits',
                    args=dict(n=7, kinds=None, slots=two)))
    out.append(case('mark-behind', alone, 'two digits or units, then a mark by its character or its normalized form', args=dict(n=3, kinds=None, slots=[['a', 'A'], ['a', '十'], ['点', '.', ',', '読']])))
    out.append(case('mark-inside', alone, 'the same between others', args=dict(n=5, kinds=None, slots=[['a'], ['点', '.', '読', ','], ['a'], ['点', '読'], ['x', 'a']])))
    out.append(case('mixed-tokens', alone, '3 tokens, some of a digit and another character with a digit for normalized form', args=dict(n=3, kinds=['a', '前', '後', 'n', ','])))
    out.append(case('long-tokens', alone, '3 tokens: digits, six digits at once, units, commas, points', args=dict(n=3, kinds=['a', 'L', '万', ',', '.'])))
    out.append(case('longer-tokens', alone, '2 tokens: digits, 14 digits at once, units, commas, points', args=dict(n=2, kinds=['a', 'M', '万', ',', '.'])))
    out.append(case('many', alone, '20 digits and tokens around them', args=dict(n=23, kinds=None, slots=[['a', 'x', '.']] + [['7']] + [['8']] * 17 + [['9', '兆']] + [['.', 'x', ',']] + [['a', '億']] + [['a', 'x']])))
    if not q:
        out.append(case('two-more', alone, '3 digits, units, commas and points, another token, and two digits or units, a comma or point and one or three digits',
                        args=dict(n=7, kinds=None, slots=[['a', '万', ',', '.']] * 3 + [['x']] + [['a', '万', '千'], ['a', ',', '.'], ['a', 'T']])))
    out += [
        case('units-4', alone, '4 tokens: digits, units and others', args=dict(n=4, kinds=['k', '千', '億', 'x'])),
        case('plain-3', alone, '3 tokens, normalization off', args=dict(n=3, kinds=['a', 'n', '百', ',', '.', 'x'], normalize=False)),
        case('weird', alone, 'tokens with any normalized form of 2 characters', steps=200_000, args=dict(n=2, kinds=['a', 'w', 'x'], before='x')),
        case('text-3', end_to_end, '3 characters through the tokenizer, 円 behind', args=dict(doms=['12,.一二円'] * 3, after='円')),
        case('text-units', end_to_end, '3 characters with units through the tokenizer', args=dict(doms=['1二千万三'] * 3)),
        case('text-plain', end_to_end, '3 characters, normalization off', args=dict(doms=['12,一二'] * 3, normalize=False)),
    ]
    if not q:
        out += [
            case('units-5', alone, '5 tokens: digits, units and others', args=dict(n=5, kinds=['k', '千', '億', 'x'])),
            case('plain-4', alone, '4 tokens, normalization off', args=dict(n=4, kinds=['a', 'n', '百', ',', '.', 'x'], normalize=False)),
            case('weird-3', alone, '3 tokens with any normalized form of 2 characters', steps=200_000, args=dict(n=3, kinds=['a', 'w', 'x'])),
            case('text-4', end_to_end, '4 characters through the tokenizer, 円 behind', args=dict(doms=['12,.一二円'] * 4, after='円')),
            case('text-units-4', end_to_end, '4 characters with units through the tokenizer', args=dict(doms=['1二千万三'] * 4)),
        ]
    return out
