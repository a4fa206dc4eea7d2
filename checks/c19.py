"""C19: out-of-vocabulary candidates follow the category rules."""
from common import case, any_text, runs_of, word_starts, starts, Grammar, number

ASSUMPTIONS = [
    'candidates are compared as a set: the same candidate offered twice competes as one',
    'a run of characters is delimited from the start of the text, as in C03',
    'the provider is asked at the first byte of a character',
]
REQUIRED = ['grouped run', 'prefix', 'nothing offered', 'not invoked', 'catch-all', 'no catch-all', 'several categories', 'category without entries',
            'category not configured']


class PosGrammar(Grammar):
    """Parts of speech by number: 品詞0, 品詞1, ..."""

    def get_part_of_speech_id(self, pos):
        assert list(pos[1:]) == ['*'] * 5, pos
        return int(pos[0][2:])


def provider(S, chardef, unkdef):
    S.load('sudachipy.config').settings.set_up(S.put('sudachi.json', {'systemDict': 'none.dic'}))
    S.put('char.def', chardef)
    S.put('unk.def', unkdef)
    M = S.load('sudachipy.plugin.oov').MeCabOovPlugin
    p = M({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'})
    p.set_up(PosGrammar(None))
    return p


def definitions(S, names, top, entries, configured, digits=3, shared=False, flags=9):
    """Symbolic definition files: (char.def, unk.def, rules); a rule has the
    flags, the length, and the entries (left id, right id, cost, pos)."""
    chardef, unkdef, rules = '# categories\n\n', '', {}
    pos = 0
    for i, n in enumerate(names):
        if configured == 'any' and not S.bool('def%d' % i):
            S.reach('category not configured')
            continue
        inv, group = S.int('inv%d' % i, 0, flags), S.int('group%d' % i, 0, flags)
        length = S.int('len%d' % i, 0 if flags else top, top)
        chardef += n + ' ' + digit(S, inv) + '\t' + digit(S, group) + ' ' + digit(S, length) + '\n'
        es = []
        for k in range(S.choice('n%d' % i, entries) if len(entries) > 1 else entries[0]):
            lt, left = number(S, 'left%d%d' % (i, k), 1)
            rt, right = number(S, 'right%d%d' % (i, k), 2)
            ct, cost = ('%d' % pos, pos) if shared else number(S, 'cost%d%d' % (i, k), digits, k % 2 == 0)
            unkdef = n + ',' + lt + ',' + rt + ',' + ct + ',品詞%d,*,*,*,*,*\n' % (5 if shared else pos) + unkdef
            es.append((left, right, cost, pos))
            pos += 1
        if not es:
            S.reach('category without entries')
        rules[n] = (inv != 0, group != 0, length, es)
    return chardef + '0x0041 ALPHA\n', unkdef, rules


def digit(S, v):
    t = '9'
    for i in range(9):
        t = S.ite(v == i, str(i), t)
    return t


def wanted(S, rules, names, types, text, start, i, run, other, top):
    """(begin, end, pos) -> (condition, left id, right id, cost, surface)"""
    out = {}
    for n, (inv, group, length, es) in rules.items():
        on = S.and_(types(n), S.or_(inv, S.not_(other)))
        for j in range(i + 1, run + 1):
            c = j - i <= length
            if j == run:
                c = S.or_(c, group)
            for left, right, cost, pos in es:
                out[start[i], start[j], pos] = (S.and_(on, c), left, right, cost, text[i:j])
    return out


def compare(S, nodes, want, shared=False):
    got = {}
    for x in nodes:
        w = x.get_word_info()
        key = (int(x.get_begin()), int(x.get_end()), int(x.get_path_cost()) if shared else int(w.pos_id))
        S.check(not shared or w.pos_id == 5, 'ids and cost are those of the category')
        got.setdefault(key, []).append((x, w))
        S.check(x.get_end() > x.get_begin(), 'every candidate is a piece of the text')
    S.observe('candidates', sorted(got))
    for key in got:
        S.check(key in want, 'no other candidate is offered')
    for key, (cond, left, right, cost, surface) in want.items():
        S.check(S.same(key in got, cond), 'exactly the candidates of the rules are offered')
        for x, w in got.get(key, ()):
            S.check(S.and_(x.get_left_id() == left, x.get_right_id() == right, x.get_path_cost() == cost), 'ids and cost are those of the category')
            S.check(S.and_(S.same(w.surface, surface), S.same(w.normalized_form, surface), S.same(w.dictionary_form, surface)),
                    'the surface is exactly that piece of the text')
            S.check(x.is_oov() and x.get_dictionary_id() == -1, 'a candidate is marked out-of-vocabulary')
            S.check(w.length() == key[1] - key[0], 'every candidate is a piece of the text')
            S.check(w.reading_form == '' and not w.a_unit_split and not w.b_unit_split and not w.word_structure and not w.synonym_group_ids,
                    'a candidate has no units')


def rules(S, n, widths, names, top, entries, configured='all', digits=3, extra=(), shared=False, flags=9):
    """Any text, any rules, every position, with and without words."""
    inp, text, sets, cats, C = any_text(S, n, widths, list(names) + list(extra), grammar=PosGrammar)
    chardef, unkdef, rs = definitions(S, names, top, entries, configured, digits, shared, flags)
    p = provider(S, chardef, unkdef)
    start = starts(text)
    runs = runs_of(S, sets, cats)
    other = S.bool('words')
    for i in range(n):
        nodes = p.get_oov(inp, start[i], other)
        want = wanted(S, rs, names, lambda k: getattr(C, k) in sets[i], text, start, i, runs[i], other, top)
        compare(S, nodes, want, shared)
        if not nodes:
            S.reach('nothing offered')
            if other:
                S.reach('not invoked')
        for x in nodes:
            S.reach('grouped run' if x.get_end() == start[runs[i]] else 'prefix')
        if len(set([w.get_word_info().pos_id for w in nodes])) > 1:
            S.reach('several categories')


def long(S, text, spots, lengths, switch):
    """A long run of known characters, any flags and some lengths; at one of
    them the category may end."""
    C = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    m = S.load('sudachipy.utf8inputtextbuilder')
    n = len(text)
    special = {C.KANJI} if S.bool('switch') else {C.GREEK, C.KANJI}
    sets = [special if i == switch else {C.GREEK} for i in range(n)]
    assert text.count(text[switch]) == 1
    inp = m.UTF8InputTextBuilder(text, PosGrammar(lambda cp: special if chr(cp) == text[switch] else {C.GREEK})).build()
    inv, group = S.bool('inv'), S.bool('group')
    length = S.choice('len', lengths)
    p = provider(S, 'GREEK %d %d %d\n' % (bool(inv), bool(group), length), 'GREEK,1,2,3,品詞0,*,*,*,*,*\n')
    start = starts(text)
    runs = runs_of(S, sets, [C.GREEK, C.KANJI])
    i = S.choice('at', spots)
    other = S.bool('words')
    want = wanted(S, {'GREEK': (bool(inv), bool(group), length, [(1, 2, 3, 0)])}, None, lambda k: getattr(C, k) in sets[i], text, start, i, runs[i], other, 0)
    compare(S, p.get_oov(inp, start[i], other), {k: v for k, v in want.items() if v[0]})


def order(S, n, widths, names):
    """Asked twice, at any places and in any order."""
    inp, text, sets, cats, C = any_text(S, n, widths, names + ['SYMBOL'], grammar=PosGrammar)
    chardef, unkdef, rs = definitions(S, names, 2, [1], 'all', 1)
    p = provider(S, chardef, unkdef)
    start = starts(text)
    runs = runs_of(S, sets, cats)
    for k in range(2):
        i = S.concrete(S.int('at%d' % k, 0, n - 1))
        other = S.bool('words%d' % k)
        nodes = p.get_oov(inp, start[i], other)
        compare(S, nodes, wanted(S, rs, None, lambda n: getattr(C, n) in sets[i], text, start, i, runs[i], other, 2))


RANGES = [(0x41, 0x5A, ['ALPHA']), (0x391, 0x3C9, ['GREEK']), (0x3041, 0x3096, ['HIRAGANA']), (0x30A1, 0x30FA, ['KATAKANA']),
          (0x3400, 0x9FFF, ['KANJI']), (0x4E00, 0x4E10, ['KANJINUMERIC']), (0x20000, 0x2FFFF, ['KANJI'])]


def files(S, n, widths, other):
    """The categories too are those of the definition file."""
    G = S.load('sudachipy.dictionarylib.charactercategory').CharacterCategory()
    text = ''
    for i in range(n):
        text += S.char('c%d' % i, ONE_OF[S.choice('w%d' % i, widths)])
    names = ['DEFAULT', 'ALPHA', 'GREEK', 'HIRAGANA', 'KATAKANA', 'KANJI', 'KANJINUMERIC']
    chardef = '# all\nDEFAULT 0 1 0\nALPHA 1 1 0\nGREEK 1 0 3\nHIRAGANA 0 1 2\nKATAKANA 1 1 1\nKANJI 0 0 2\nKANJINUMERIC 1 1 0\n'
    flags = {'DEFAULT': (False, True, 0), 'ALPHA': (True, True, 0), 'GREEK': (True, False, 3), 'HIRAGANA': (False, True, 2),
             'KATAKANA': (True, True, 1), 'KANJI': (False, False, 2), 'KANJINUMERIC': (True, True, 0)}
    for lo, hi, cs in RANGES:
        chardef += '0x%04X..0x%04X %s\n' % (lo, hi, ' '.join(cs))
    unkdef, rs = '', {}
    for k, c in enumerate(names):
        unkdef += '%s,%d,%d,%d,品詞%d,*,*,*,*,*\n' % (c, k, k + 1, 100 * k, k)
        rs[c] = flags[c] + ([(k, k + 1, 100 * k, k)],)
    p = provider(S, chardef, unkdef)
    G.read_character_definition(S.path('char.def'))

    class Real(PosGrammar):
        def get_character_category(self):
            return G
    inp = S.load('sudachipy.utf8inputtextbuilder').UTF8InputTextBuilder(text, Real(None)).build()
    start = starts(text)

    def types(i, name):
        cp = S.codes(text[i])[0]
        some = S.or_(*[S.and_(lo <= cp, cp <= hi) for lo, hi, cs in RANGES])
        if name == 'DEFAULT':
            return S.not_(some)
        return S.or_(*[S.and_(lo <= cp, cp <= hi) for lo, hi, cs in RANGES if name in cs])
    sets = [Types(types, i) for i in range(n)]
    runs = runs_of(S, sets, names)
    for i in range(n):
        compare(S, p.get_oov(inp, start[i], other), wanted(S, rs, names, lambda k: types(i, k), text, start, i, runs[i], other, 3))


class Types:
    def __init__(self, fn, i):
        self.fn, self.i = fn, i

    def __contains__(self, name):
        return self.fn(self.i, name)


ONE_OF = {1: ((1, 0x7F),), 2: ((0x80, 0x7FF),), 3: ((0x800, 0xD7FF), (0xE000, 0xFFFF)), 4: ((0x10000, 0x10FFFF),)}


def catch_all(S, n, widths, cats):
    """The provider of one candidate."""
    inp, text, sets, cats, C = any_text(S, n, widths, cats, grammar=PosGrammar)
    left, right, cost = S.int('left', 0, 32767), S.int('right', 0, 32767), S.int('cost', -32768, 32767)
    P = S.load('sudachipy.plugin.oov').SimpleOovPlugin
    pos = S.choice('pos', [0, 7])
    p = P({'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': ['品詞%d' % pos] + ['*'] * 5, 'leftId': left, 'rightId': right, 'cost': cost})
    p.set_up(PosGrammar(None))
    start = starts(text)
    bow = word_starts(S, sets, cats, C)
    for i in range(n):
        if not bow[i]:
            continue
        other = S.bool('words%d' % i)
        nodes = p.get_oov(inp, start[i], other)
        if other:
            S.check(len(nodes) == 0, 'nothing is offered beside other words')
            S.reach('no catch-all')
            continue
        j = i + 1
        while j < n and not bow[j]:
            j += 1
        S.check(len(nodes) == 1, 'one candidate is offered where there is no word')
        compare(S, nodes, {(start[i], start[j], pos): (True, left, right, cost, text[i:j])})
        S.reach('catch-all')


def cases(tier):
    q = tier == 'quick'
    out = [
        case('two', rules, 'any 2 distinct characters of width 1 and 4, any sets of 2 categories, any flags, lengths 0 to 2, one entry each, with and without words',
             args=dict(n=2, widths=[1, 4], names=['KANJI', 'ALPHA'], top=2, entries=[1], digits=1)),
        case('configured', rules, 'a character, categories that are configured or not, 0 to 2 entries each',
             args=dict(n=1, widths=[3], names=['KANJI', 'KATAKANA'], top=2, entries=[0, 1, 2], configured='any')),
        case('three', rules, '3 distinct characters of width 1 and 3, a category with rules and one without, lengths 0 to 3',
             args=dict(n=3, widths=[1, 3], names=['HIRAGANA'], extra=['SYMBOL'], top=3, entries=[2])),
        case('run', rules, '4 characters of width 2 of one category, lengths 0 to 9', args=dict(n=4, widths=[2], names=['GREEK'], top=9, entries=[1])),
        case('long', long, '100 characters of one category that may end, lengths 0 to 99',
             args=dict(text='αあ' * 45 + 'bx' + 'α' * 8, spots=[0, 1, 60, 90, 92, 98], lengths=[0, 1, 7, 12, 30, 98, 99], switch=91)),
        case('shared', rules, '2 distinct characters of width 1, any sets of 2 categories, entries with one part of speech',
             args=dict(n=2, widths=[1], names=['KANJI', 'ALPHA'], top=2, entries=[2], digits=1, shared=True)),
        case('many-cats', rules, 'a character, any set of 5 categories with one entry each', args=dict(
            n=1, widths=[3], names=['KANJI', 'ALPHA', 'GREEK', 'USER1', 'SYMBOL'], top=1, entries=[1], digits=1, flags=0)),
        case('order', order, '2 characters, asked twice anywhere', args=dict(n=2, widths=[3], names=['KANJI'])),
        case('files', files, '2 characters of any of 4 widths, all with the categories of a definition file', args=dict(n=2, widths=[1, 2, 3, 4], other=False)),
        case('files-words', files, 'the same beside words', args=dict(n=2, widths=[2, 3], other=True)),
        case('catch-all', catch_all, 'one candidate: 3 characters of width 1 or 3, any sets of ALPHA, GREEK, any ids and cost',
             args=dict(n=3, widths=[1, 3], cats=['ALPHA', 'GREEK'])),
        case('catch-all-2', catch_all, 'one candidate: 2 characters of any width, any sets of 3 categories',
             args=dict(n=2, widths=[1, 2, 3, 4], cats=['CYRILLIC', 'KANJI', 'DEFAULT'])),
    ]
    if not q:
        out += [
            case('two-any', rules, 'the same for any width, lengths 0 to 3', args=dict(n=2, widths=[1, 2, 3, 4], names=['KANJI', 'ALPHA'], top=3, entries=[1], digits=2)),
            case('order-3', order, '3 characters, asked twice anywhere', args=dict(n=3, widths=[1], names=['KANJI', 'ALPHA'])),
            case('three-2', rules, '3 distinct characters of width 1 and 4, any sets of 2 categories, any flags, lengths 0 to 3',
                 args=dict(n=3, widths=[1, 4], names=['KANJI', 'ALPHA'], top=3, entries=[1], digits=2)),
            case('two-3', rules, '2 characters, any sets of 3 categories, configured or not', args=dict(
                n=2, widths=[3], names=['KANJI', 'ALPHA', 'USER1'], top=2, entries=[1], digits=1, configured='any')),
            case('files-3', files, '3 characters of width 2 and 3', args=dict(n=3, widths=[2, 3], other=False)),
            case('catch-all-4', catch_all, 'one candidate: 4 characters', args=dict(n=4, widths=[2, 3], cats=['ALPHA', 'CYRILLIC'])),
        ]
    return out
