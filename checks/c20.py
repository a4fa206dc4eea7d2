"""C20: every text can be analysed."""
from common import case, row, system_bytes, full_matrix, dictionary, world, MECAB, NORMALIZE, PROLONGED, NUMJOIN, KATAJOIN, CATCH

ASSUMPTIONS = [
    'text that can be encoded, no connection is inhibited, the catch-all provider is the last one',
    'a run of characters is delimited from the start of the text, as in C03',
]
REQUIRED = ['catch-all', 'catch-all over several characters', 'dictionary word', 'category candidate', 'may not start a word', 'may not start an unknown word']

RANGES = [(0x41, 0x43, ['ALPHA', 'GREEK']), (0x44, 0x5A, ['ALPHA']), (0x61, 0x63, ['ALPHA', 'NOOOVBOW']), (0x300, 0x36F, ['NOOOVBOW']),
          (0x391, 0x3C9, ['GREEK']), (0x410, 0x44F, ['CYRILLIC']), (0x4E00, 0x4E10, ['KANJI', 'KANJINUMERIC']), (0x4E11, 0x9FFF, ['KANJI']),
          (0x10300, 0x1031F, ['GREEK', 'CYRILLIC'])]
NAMES = ['DEFAULT', 'ALPHA', 'GREEK', 'NOOOVBOW', 'CYRILLIC', 'KANJI', 'KANJINUMERIC']
WORDS = ['AB', 'Dβ', 'a', '\u0301一', '一', '丁一', 'Я', 'ββ', '!D']
# category -> invoke, group, length
RULES = {
    'none': {},
    'groups': {'DEFAULT': (0, 1, 0), 'ALPHA': (1, 1, 0), 'GREEK': (0, 1, 0), 'NOOOVBOW': (1, 1, 0), 'KANJI': (0, 1, 0)},
    'lengths': {'ALPHA': (1, 0, 2), 'GREEK': (0, 0, 1), 'CYRILLIC': (1, 0, 2), 'KANJI': (0, 0, 2), 'KANJINUMERIC': (1, 0, 1)},
    'zero': {'DEFAULT': (1, 0, 0), 'ALPHA': (1, 0, 0), 'KANJI': (0, 0, 0), 'CYRILLIC': (1, 1, 1), 'NOOOVBOW': (1, 0, 3)},
}
UNKCOST = {'DEFAULT': 500, 'ALPHA': 120, 'GREEK': 110, 'NOOOVBOW': 130, 'CYRILLIC': 150, 'KANJI': 220, 'KANJINUMERIC': 90}


def definition():
    return ''.join('0x%04X..0x%04X %s\n' % (lo, hi, ' '.join(cs)) for lo, hi, cs in RANGES)


def unkpos(k):
    return ['名詞', '未知%d' % k, '*', '*', '*', '*']


def set_up(S, rules, catch):
    words = [row(w, cost=100 * len(w) + 7 * i) for i, w in enumerate(WORDS)] + [row('zzz', left=-1, pos=CATCH)]
    words += [row('zz%d' % k, left=-1, pos=unkpos(k)) for k in range(len(NAMES))]
    S.put('system.dic', system_bytes(S, words, full_matrix(1, 10)))
    chardef = definition()
    unkdef = ''
    for n, (i, g, l) in rules.items():
        chardef += '%s %d %d %d\n' % (n, i, g, l)
        unkdef += '%s,0,0,%d,' % (n, UNKCOST[n]) + ','.join(unkpos(NAMES.index(n))) + '\n'
    oov = ([MECAB] if rules else []) + [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': CATCH, 'leftId': 0, 'rightId': 0, 'cost': catch}]
    return dictionary(S, oov=oov, chardef=chardef, unk=unkdef or None)


def categories(S, text):
    """The categories of every character (the path decides them)."""
    out = []
    for c in S.codes(text):
        hit = set()
        for lo, hi, cs in RANGES:
            if S.and_(lo <= c, c <= hi):
                hit |= set(cs)
        out.append(hit or {'DEFAULT'})
    return out


def candidates(S, text, rules, catch):
    """(begin, end, key, cost) of the candidates at every place that can be
    reached."""
    n = len(text)
    cats = categories(S, text)
    bow = [i == 0 or not (cats[i] & {'ALPHA', 'GREEK', 'CYRILLIC'} and cats[i] & cats[i - 1]) for i in range(n)] + [True]
    runs = []
    while len(runs) < n:
        i = len(runs)
        shared, j = cats[i], i + 1
        while j < n and shared & cats[j]:
            shared = shared & cats[j]
            j += 1
        runs += [j] * (j - i)
    reached = {0}
    out = {}
    for i in range(n):
        if i not in reached:
            continue
        cs = set()
        for k, w in enumerate(WORDS):
            if i + len(w) <= n and S.same(text[i:i + len(w)], w) and bow[i + len(w)]:
                cs.add((i + len(w), ('word', k), 100 * len(w) + 7 * k))
        if 'NOOOVBOW' not in cats[i]:
            other = bool(cs)
            for c in cats[i]:
                if c in rules and (rules[c][0] or not other):
                    ends = set(j for j in range(i + 1, runs[i] + 1) if j - i <= rules[c][2])
                    if rules[c][1]:
                        ends.add(runs[i])
                    for j in ends:
                        if bow[j]:
                            cs.add((j, ('unk', NAMES.index(c)), UNKCOST[c]))
        else:
            S.reach('may not start an unknown word')
        if not cs:
            j = i + 1
            while not bow[j]:
                j += 1
                S.reach('may not start a word')
            cs.add((j, ('catch',), catch))
        out[i] = cs
        reached |= set(c[0] for c in cs)
    return out


def analysed(S, doms, rules, catch=300, before=''):
    text = before
    for i, d in enumerate(doms):
        text += S.char('t%d' % i, d)
    rs = RULES[rules]
    tok = set_up(S, rs, catch).create()
    cands = candidates(S, text, rs, catch)
    try:
        ml = tok.tokenize(text)
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.fail('the text is analysed')
        return
    best = {0: 0}
    for i in sorted(cands):
        for end, key, cost in cands[i]:
            best[end] = min(best.get(end, 1 << 40), best[i] + cost + 10)
    at = 0
    total = 0
    got = []
    for m in ml:
        if m.is_oov():
            k = m.part_of_speech()[1]
            key = ('unk', int(k[2:])) if k.startswith('未知') else ('catch',)
            S.reach('category candidate' if len(key) == 2 else 'catch-all')
            if len(key) == 1 and m.end() - m.begin() > 1:
                S.reach('catch-all over several characters')
        else:
            key = ('word', m.word_id())
            S.reach('dictionary word')
        S.check(m.begin() == at, 'the end of the text is reached')
        hit = [c for c in cands[at] if c[0] == m.end() and c[1] == key]
        S.check(len(hit) == 1, 'one candidate reaching the next word start is offered where there is no word')
        total += hit[0][2] + 10
        at = m.end()
        got.append((at, str(key)))
    S.observe('path', got)
    S.check(at == len(text), 'the end of the text is reached')
    S.check(total == best[len(text)], 'every candidate is offered')


def whatever(S, doms, before='', after=''):
    """All plugins on: the text is analysed."""
    tok = world(S).create()
    text = before
    for i, d in enumerate(doms):
        text += S.char('t%d' % i, d)
    text += after
    try:
        ml = tok.tokenize(text)
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.fail('the text is analysed')
        return
    S.check(ml[len(ml) - 1].end() == len(text), 'the end of the text is reached')


LETTERS = 'AaDβ\u0301一Я!\U00010300'
ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def cases(tier):
    q = tier == 'quick'
    out = []
    for r in RULES:
        out.append(case('two-' + r, analysed, 'every text of 2 characters, rules %s' % r, args=dict(doms=[ANY, ANY], rules=r, catch=30 if r == 'zero' else 300)))
    for r in RULES:
        out.append(case('three-' + r, analysed, 'every text of 3 of %d characters, rules %s' % (len(LETTERS), r), args=dict(doms=[LETTERS] * 3, rules=r, catch=5000)))
    out += [
        case('letters', analysed, 'letters of several scripts behind A', args=dict(doms=['ABDβЯ\U00010300'] * 3, before='A', rules='lengths')),
        case('run', analysed, '2 characters of %d behind 40 letters' % len(LETTERS), args=dict(doms=[LETTERS] * 2, before='A' * 40, rules='lengths')),
        case('run-kanji', analysed, '2 characters of %d behind 70 kanji' % len(LETTERS), args=dict(doms=[LETTERS] * 2, before='一丁' * 35, rules='groups')),
        case('run-marks', analysed, '2 characters of %d behind a letter and 70 marks' % len(LETTERS), args=dict(doms=[LETTERS] * 2, before='D' + '\u0301' * 70, rules='zero')),
        case('any', whatever, 'every character, all plugins on', args=dict(doms=[ANY])),
        case('marks', whatever, 'every character behind and before combining marks, all plugins on', args=dict(doms=[ANY], before='\u0301', after='\u0301a')),
    ]
    if not q:
        for r in RULES:
            out.append(case('four-' + r, analysed, 'every text of 4 of %d characters, rules %s' % (len(LETTERS), r), args=dict(doms=[LETTERS] * 4, rules=r)))
            out.append(case('any-3-' + r, analysed, 'every text of 3 characters, rules %s' % r, args=dict(doms=[ANY] * 3, rules=r)))
        out += [case('any-2', whatever, 'every character behind one of 10, all plugins on', args=dict(doms=['aA1.ア東㍍\u0301ーЯ', ANY]))]
    return out
