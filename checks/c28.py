"""C28: definition files are read faithfully and malformed ones refused."""
from unicodedata import normalize

from common import case, Grammar, starts

ASSUMPTIONS = ['the text of a line is without line breaks and other white space between its columns',
               'numbers are of ASCII digits; underscores inside a number and digits of other scripts are not claimed',
               'columns after the fourth of a category definition and after the tenth of an unknown-word definition are not claimed',
               'the flags of a category are digits', 'lower-casing and NFKC are those of the Python in use']
REQUIRED = ['table read', 'duplicate key refused', 'columns refused', 'ignore entry refused', 'comment', 'blank line', 'ignored', 'replaced', 'categories read',
            'short definition refused', 'unknown category refused', 'category defined twice refused', 'known category', 'entries read', 'short entry refused',
            'entry of an unknown category refused', 'entry of an undefined category refused', 'unknown part of speech refused', 'number refused', 'no final newline']

# everything but white space and line breaks
SOLID = ((0x21, 0x7E), (0xA1, 0x167F), (0x1681, 0x1FFF), (0x200B, 0x2027), (0x202A, 0x202E), (0x2030, 0x205E), (0x2060, 0x2FFF), (0x3001, 0xD7FF), (0xE000, 0x10FFFF))
SMALL = ((0x21, 0x7E), (0x3300, 0x33FF), (0xFF01, 0xFF5E))
BLANKS = ['', ' ', '\t \u3000']


def joined(S, lines):
    if S.bool('final newline'):
        return ''.join([l + '\n' for l in lines])
    S.reach('no final newline')
    return '\n'.join(lines)


def surrounded(S, name, line, spaces):
    return S.choice(name + '.before', spaces) + line + S.choice(name + '.after', spaces)


def comment(S, name, dom):
    S.reach('comment')
    return '#' + S.text(name + '.comment', 1, dom) + ' x y z'


# ------------------------------------------------------------ the table --
def is_mark(S, c):
    return S.codes(c)[0] == 35


def table(S, lines, dom, klen, vlen, kinds, spaces=('', ' '), seps=(' ', '\t'), keydom=None, probe=True):
    """A table of any lines."""
    P = S.load('sudachipy.plugin.input_text.default_input_text_plugin').DefaultInputTextPlugin()
    keydom = keydom or dom
    pairs, ignore = [], []
    wrong = False
    out = []
    for i in range(lines):
        name = 'l%d' % i
        kind = S.choice(name, kinds)
        if kind == 'comment':
            out.append(surrounded(S, name, comment(S, name, dom), spaces))
            continue
        if kind == 'blank':
            out.append(S.choice(name + '.blank', BLANKS))
            S.reach('blank line')
            continue
        if kind == 'ignore':
            c = S.text(name + '.ignore', 1, dom)
            out.append(surrounded(S, name, c, spaces))
            if is_mark(S, c):
                S.reach('comment')
                continue
            ignore.append(c)
            continue
        if kind == 'ignore 2':
            c = S.text(name + '.ignore', 2, dom)
            out.append(surrounded(S, name, c, spaces))
            if is_mark(S, c):
                S.reach('comment')
                continue
            wrong = True
            S.reach('ignore entry refused')
            continue
        k = S.text(name + '.key', S.choice(name + '.keys', klen), keydom)
        v = S.text(name + '.value', S.choice(name + '.values', vlen), dom)
        sep = S.choice(name + '.between', seps)
        line = k + sep + v
        if kind == 'three':
            line += sep + S.text(name + '.third', 1, dom)
        out.append(surrounded(S, name, line, spaces))
        if is_mark(S, k):
            S.reach('comment')
            continue
        if kind == 'three':
            wrong = True
            S.reach('columns refused')
            continue
        if wrong is not True and S.or_(*[k == o for o, _ in pairs if len(o) == len(k)]):
            wrong = True
            S.reach('duplicate key refused')
        pairs.append((k, v))
    f = S.put('rewrite.def', joined(S, out))
    try:
        P.read_rewrite_lists(f)
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.check(wrong, 'a well-formed table is accepted')
        return
    S.check(not wrong, 'a malformed table is refused')
    S.reach('table read')
    if not probe:
        return
    # every entry is in use
    for k, v in pairs:
        S.check(S.same(rewritten(S, P, k), v), 'every line is taken into account with its values')
        S.reach('replaced')
    for c in ignore:
        if S.or_(*[c == k for k, _ in pairs if len(k) == 1]):
            continue
        low = c.lower()
        kept = len(low) == 1 and S.or_(*[low == g for g in ignore])
        S.check(S.same(rewritten(S, P, c), low if kept else normalize('NFKC', low)), 'every line is taken into account with its values')
        if kept:
            S.reach('ignored')
    # and nothing else
    c = S.text('other', 1, dom)
    for k, v in pairs:
        S.assume(c != k[0])
    low = c.lower()
    kept = len(low) == 1 and ignore and S.or_(*[low == g for g in ignore])
    S.check(S.same(rewritten(S, P, c), low if kept else normalize('NFKC', low)), 'nothing but the lines of the file is in use')


def rewritten(S, plugin, text):
    m = S.load('sudachipy.utf8inputtextbuilder')
    cat = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    b = m.UTF8InputTextBuilder(text, Grammar(lambda c: {cat.DEFAULT}))
    plugin.rewrite(b)
    return b.get_text()


# ----------------------------------------------------- the definitions --
NAMES = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC', 'USER1', 'USER2', 'USER3', 'USER4',
         'NOOOVBOW']


class PosGrammar(Grammar):
    """Parts of speech 品詞0 to 品詞9."""

    def get_part_of_speech_id(self, pos):
        if len(pos) == 6 and pos[1:] == ['*'] * 5:
            for k in range(10):
                if pos[0] == '品詞%d' % k:
                    return k
        return -1


def known(S, text):
    """The category of a name, or None."""
    for n in NAMES:
        if len(n) == len(text) and text == n:
            S.reach('known category')
            return n
    return None


def digit(S, name, dom='0123456789'):
    t = S.text(name, 1, dom)
    return t, S.codes(t)[0] - 48


def column(S, name, dom):
    """A column that is to be a number: (text, whether it is one, value)."""
    t = S.text(name, 1, dom)
    c = S.codes(t)[0]
    ok = S.and_(c >= 48, c <= 57)
    return t, bool(ok), c - 48


def offered(S, plugin, name, other, run=2):
    """What the provider offers on a run of some characters of a category."""
    C = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    inp = S.load('sudachipy.utf8inputtextbuilder').UTF8InputTextBuilder('あ' * run, PosGrammar(lambda c: {getattr(C, name)})).build()
    out = {}
    for x in plugin.get_oov(inp, 0, other):
        w = x.get_word_info()
        out[int(x.get_end()), S.concrete(w.pos_id)] = (x.get_left_id(), x.get_right_id(), x.get_path_cost(), w.surface)
    return out


def agree(S, plugin, rules, run=2):
    """The provider follows the rules."""
    for name in NAMES[:4] + [n for n in rules if n not in NAMES[:4]]:
        rule, es = rules.get(name, (None, ()))
        other = S.bool('words.' + name) if len(rules) == 1 else False
        got = offered(S, plugin, name, other, run)
        if not rule:
            S.check(not got, 'nothing but the lines of the file is in use')
            continue
        inv, group, length = rule
        on = S.or_(inv != 0, not other)
        want = {}
        for j in range(1, run + 1):
            c = length >= j
            if j == run:
                c = S.or_(c, group != 0)
            for left, right, cost, pos in es:
                want[3 * j, pos] = (S.and_(on, c), (left, right, cost, 'あ' * j))
        for k in got:
            S.check(k in want, 'nothing but the lines of the file is in use')
        for k, (c, x) in want.items():
            S.check(S.same(k in got, c), 'every line is taken into account with its values')
            if k in got:
                S.check(S.same(got[k], x), 'every line is taken into account with its values')


def reader(S, chardef, unkdef):
    M = S.load('sudachipy.plugin.oov').MeCabOovPlugin
    S.load('sudachipy.config').settings.set_up(S.put('sudachi.json', {'systemDict': 'none.dic'}))
    S.put('char.def', chardef)
    S.put('unk.def', unkdef)
    p = M({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'})
    p.set_up(PosGrammar(None))
    return p


def categories(S, lines, kinds, names, seps=(' ', '\t '), spaces=('', ' '), dom=((0x21, 0x7E),), numdom='0123456789', lead='', run=2):
    """Category definitions of any lines; each has an entry."""
    rules = {}
    wrong = False
    out = []
    unk = ''
    for i in range(lines):
        name = 'l%d' % i
        kind = S.choice(name, kinds)
        if kind == 'comment':
            out.append(surrounded(S, name, comment(S, name, dom), spaces))
            continue
        if kind == 'blank':
            out.append(S.choice(name + '.blank', BLANKS))
            S.reach('blank line')
            continue
        if kind == 'mapping':
            out.append('0x0041..0x005A' + S.choice(name + '.mapped', [' ALPHA', ' ALPHA GREEK KANJI', '']))
            continue
        if kind.startswith('any '):
            c = S.text(name + '.name', int(kind[4:]), dom)
            S.assume(S.not_(is_mark(S, c)))
            S.assume(S.not_(S.and_(*[a == b for a, b in zip(S.codes(c), [48, 120])])))
            cat = known(S, c)
            if cat is None:
                wrong = True
                S.reach('unknown category refused')
        else:
            cat = c = S.choice(name + '.name', names)
        sep = S.choice(name + '.between', seps)
        a, inv = digit(S, name + '.invoke')
        b, group = digit(S, name + '.group')
        t, ok, length = column(S, name + '.length', numdom)
        if lead:
            t = lead + t
            length = int(lead) * 10 + length
        cols = [c, a, b, t]
        if kind == 'short':
            cols = cols[:S.choice(name + '.columns', [1, 2, 3])]
            wrong = True
            S.reach('short definition refused')
        elif not ok:
            wrong = True
            S.reach('number refused')
        out.append(surrounded(S, name, sep.join(cols), spaces))
        if wrong:
            continue
        if cat in rules:
            wrong = True
            S.reach('category defined twice refused')
            continue
        S.assume(length <= run + 1)
        rules[cat] = ((inv, group, length), [(i, 2 * i, 30 * i, i)])
        unk += '%s,%d,%d,%d,品詞%d,*,*,*,*,*\n' % (cat, i, 2 * i, 30 * i, i)
    try:
        p = reader(S, joined(S, out), unk if not wrong else '')
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.check(wrong, 'well-formed definitions are accepted')
        return
    S.check(not wrong, 'malformed definitions are refused')
    S.reach('categories read')
    agree(S, p, rules, run)


def entries(S, lines, kinds, names=('KANJI', 'ALPHA'), defined=('KANJI', 'ALPHA'), dom=((0x21, 0x7E),), numdom='0123456789', spaces=('', ' '), sign=('', '-')):
    """Unknown-word definitions of any lines."""
    rules = {n: ((1, 1, 1), []) for n in defined}
    wrong = False
    out = []
    for i in range(lines):
        name = 'l%d' % i
        kind = S.choice(name, kinds)
        if kind == 'blank':
            out.append(S.choice(name + '.blank', BLANKS))
            S.reach('blank line')
            continue
        if kind.startswith('any '):
            c = S.text(name + '.name', int(kind[4:]), dom)
            S.assume(S.and_(*[x != 44 for x in S.codes(c)]))
            cat = known(S, c)
            if cat is None:
                wrong = True
                S.reach('entry of an unknown category refused')
        else:
            cat = c = S.choice(name + '.name', names)
        a, ok1, left = column(S, name + '.left', numdom)
        b, ok2, right = column(S, name + '.right', '0123456789')
        t, ok3, cost = column(S, name + '.cost', numdom)
        if S.choice(name + '.sign', sign) == '-':
            t = '-1' + t
            cost = -10 - cost
        pos = i
        p = '品詞%d' % i
        if kind == 'pos':
            p = '品' + S.text(name + '.pos', 2, ((0x30, 0x39), (0x8A5E, 0x8A5E)))
            pos = PosGrammar(None).get_part_of_speech_id([p] + ['*'] * 5)
            if pos < 0:
                wrong = True
                S.reach('unknown part of speech refused')
        cols = [c, a, b, t, p, '*', '*', '*', '*', '*']
        if kind == 'short':
            cols = cols[:S.choice(name + '.columns', [1, 4, 9])]
            wrong = True
            S.reach('short entry refused')
        elif not (ok1 and ok3):
            wrong = True
            S.reach('number refused')
        out.append(surrounded(S, name, ','.join(cols), spaces))
        if cat is not None and kind != 'short' and cat not in defined:
            wrong = True
            S.reach('entry of an undefined category refused')
        if not wrong:
            rules[cat][1].append((left, right, cost, pos))
    chardef = ''.join(['%s 1 1 1\n' % n for n in defined])
    try:
        p = reader(S, chardef, joined(S, out))
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.check(wrong, 'well-formed definitions are accepted')
        return
    S.check(not wrong, 'malformed definitions are refused')
    S.reach('entries read')
    if len(set([e[3] for n in rules for e in rules[n][1]])) < sum([len(rules[n][1]) for n in rules]):
        return
    agree(S, p, rules)


NUMBERS = ((0x21, 0x2A), (0x2C, 0x2C), (0x2E, 0x5E), (0x60, 0x7E))      # no sign, no underscore
COLUMN = ((0x21, 0x2A), (0x2E, 0x5E), (0x60, 0x7E))


def cases(tier):
    q = tier == 'quick'
    kinds = ['ignore', 'pair', 'comment', 'blank']
    one = dict(spaces=[''], seps=[' '])
    out = [
        case('table-1', table, 'a line of any kind', args=dict(lines=1, dom=SMALL, klen=[1, 2], vlen=[1, 2], kinds=kinds + ['ignore 2', 'three'])),
        case('table-2', table, 'two lines of any kind', args=dict(lines=2, dom=((0x21, 0x25), (0x3300, 0x3310)), klen=[1, 2], vlen=[1], kinds=kinds + ['ignore 2', 'three'], **one)),
        case('table-keys', table, 'three entries', args=dict(lines=3, dom='ab', klen=[1, 2], vlen=[1, 2], kinds=['pair'], **one)),
        case('table-refused', table, 'three lines', args=dict(lines=3, dom=((0x21, 0x25),), klen=[1], vlen=[1], kinds=['pair', 'ignore 2', 'blank', 'three'], probe=False, **one)),
        case('table-any', table, 'a line with any characters', args=dict(lines=1, dom=SOLID, klen=[1], vlen=[1], kinds=['ignore 2', 'three', 'pair'], probe=False)),
        case('categories-2', categories, 'two lines of any kind', args=dict(lines=2, kinds=['ok', 'short', 'comment', 'blank', 'mapping'], names=['KANJI', 'SPACE'], spaces=[''], seps=[' '])),
        case('categories-number', categories, 'a length of any character', args=dict(lines=1, kinds=['ok'], names=['GREEK'], numdom=NUMBERS)),
        case('categories-long', categories, 'a length of two digits, 15 characters', args=dict(lines=1, kinds=['ok'], names=['KANJI'], spaces=[''], seps=[' '], lead='1', run=15)),
        case('entries-2', entries, 'two lines of any kind', args=dict(lines=2, kinds=['ok', 'short', 'blank', 'pos'], names=['KANJI', 'SPACE'], defined=['KANJI', 'ALPHA'], spaces=[''])),
        case('entries-many', entries, '9 entries of a category', args=dict(lines=9, kinds=['ok'], names=['KANJI'], spaces=[''], sign=['-'])),
        case('entries-number', entries, 'numbers of any character', args=dict(lines=1, kinds=['ok'], names=['ALPHA'], numdom=COLUMN)),
    ]
    out += [case('categories-name-%d' % n, categories, 'a name of any %d ASCII characters' % n, args=dict(lines=1, kinds=['any %d' % n], names=['KANJI'], spaces=[''])) for n in (3, 5)]
    out += [case('entries-name-%d' % n, entries, 'a name of any %d ASCII characters' % n, args=dict(lines=1, kinds=['any %d' % n], defined=['KANJI', 'ALPHA', 'USER1'], spaces=[''])) for n in (3, 5)]
    if not q:
        out += [
            case('table-3', table, 'three lines of any kind', args=dict(lines=3, dom=((0x21, 0x25), (0x3300, 0x3310)), klen=[1, 2], vlen=[1], kinds=kinds, **one)),
            case('table-wide', table, 'two lines with any blanks', args=dict(lines=2, dom=((0x21, 0x25), (0x3300, 0x3302)), klen=[1], vlen=[1], kinds=['pair', 'ignore', 'comment'])),
            case('categories-3', categories, 'three lines of any kind', args=dict(
                lines=3, kinds=['ok', 'short', 'comment', 'blank', 'mapping'], names=['KANJI', 'SPACE', 'USER4'], spaces=[''], seps=[' '])),
            case('entries-3', entries, 'three lines of any kind', args=dict(lines=3, kinds=['ok', 'short', 'blank', 'pos'], names=['KANJI', 'ALPHA'], spaces=[''], sign=['-'])),
        ]
        for n in (4, 6, 7, 8, 9, 12):
            out.append(case('categories-name-%d' % n, categories, 'a name of any %d ASCII characters' % n, args=dict(lines=1, kinds=['any %d' % n], names=['KANJI'], spaces=[''])))
            out.append(case('entries-name-%d' % n, entries, 'a name of any %d ASCII characters' % n, args=dict(lines=1, kinds=['any %d' % n], defined=['KANJI', 'ALPHA', 'USER1'], spaces=[''])))
    return out
