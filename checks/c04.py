"""C04: default text normalization follows its definition exactly."""
import os
from unicodedata import normalize

from common import case, Grammar

ASSUMPTIONS = ['lower-casing and NFKC are those of the Python in use, per character (str.lower, unicodedata.normalize)',
               'the grammar is a stand-in whose only category is DEFAULT']
REQUIRED = ['table', 'normalized', 'ignored', 'kept']


def reference(S, text, table, ignore):
    """(rewritten text, original place of each place of it)"""
    out, pos = '', []
    i = 0
    longest = 0
    for k, _ in table:
        longest = max(longest, len(k))
    while i < len(text):
        hit = None
        for n in range(min(longest, len(text) - i), 0, -1):
            piece = text[i:i + n]
            for k, v in table:
                if len(k) == n and k == piece:
                    hit = (n, v)
                    break
            if hit is not None:
                break
        if hit is not None:
            n, v = hit
            out += v
            pos += [i] + [i + n] * (len(v) - 1)
            i += n
            S.reach('table')
            continue
        c = text[i]
        low = c.lower()
        if len(low) == 1 and S.or_(*[low == g for g in ignore]):
            new = low
            S.reach('ignored')
        else:
            new = normalize('NFKC', low)
            S.reach('normalized')
        if len(new) == 1 and new == c:
            S.reach('kept')
        out += new
        pos += [i] + [i + 1] * (len(new) - 1)
        i += 1
    return out, pos + [len(text)]


def compare(S, plugin, text, table, ignore):
    m = S.load('sudachipy.utf8inputtextbuilder')
    cat = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    b = m.UTF8InputTextBuilder(text, Grammar(lambda c: {cat.DEFAULT}))
    plugin.rewrite(b)
    want, pos = reference(S, text, table, ignore)
    got = b.get_text()
    S.observe('text', got)
    S.check(len(got) == len(want), 'the rewritten text follows the definition')
    S.check(S.same(got, want), 'the rewritten text follows the definition')
    S.check(S.same(b.get_original_text(), text), 'the original text is kept')
    inp = b.build()
    at = 0
    for i in range(len(want)):
        S.check(inp.get_original_index(at) == pos[i], 'a replacement is reported at its place')
        at += len(got[i].encode('utf-8'))
    S.check(inp.get_original_index(at) == pos[-1], 'a replacement is reported at its place')


def load_table(S, lines):
    table, ignore = [], []
    for line in lines:
        cols = line.split()
        if not cols or cols[0].startswith('#'):
            continue
        if len(cols) == 1:
            ignore.append(cols[0])
        else:
            table.append((cols[0], cols[1]))
    return table, ignore


def shipped(S, n, doms, fixed=''):
    """The rewrite.def that comes with the package."""
    config = S.load('sudachipy.config')
    path = os.path.join(config.DEFAULT_RESOURCEDIR, 'rewrite.def')
    with S.open(path, 'r', encoding='utf-8') as f:
        lines = f.read().split('\n')
    table, ignore = load_table(S, lines)
    p = S.load('sudachipy.plugin.input_text.default_input_text_plugin').DefaultInputTextPlugin()
    p.set_up()
    text = ''
    for i in range(n):
        text += S.char('t%d' % i, doms[i % len(doms)])
    compare(S, p, text + fixed, table, ignore)


def own(S, klens, vlens, n, kdom, vdom, tdom, ign=None, before=False, fixed=(), head='', tail='', other=False):
    """A table with arbitrary entries."""
    if other:       # a plugin with a table of its own, used before
        o = S.load('sudachipy.plugin.input_text.default_input_text_plugin').DefaultInputTextPlugin()
        o.read_rewrite_lists(S.put('other.def', 'ab XY\na Z\nⅰ\nｶ\n'))
        compare(S, o, 'abaⅠｶ' + S.char('o', tdom), [('ab', 'XY'), ('a', 'Z')], ['ⅰ', 'ｶ'])
    p = S.load('sudachipy.plugin.input_text.default_input_text_plugin').DefaultInputTextPlugin()
    table, ignore = [], []
    lines = ''
    for k, v in fixed:
        table.append((k, v))
        lines += k + '\t' + v + '\n'
    for i, (k, v) in enumerate(zip(klens, vlens)):
        a, b = S.text('k%d' % i, k, kdom), S.text('v%d' % i, v, vdom)
        for o, _ in table:
            S.assume(S.not_(S.same(o, a)))
        table.append((a, b))
        lines += a + ' ' + b + '\n'
    if ign:
        g = S.char('g', ign)
        ignore.append(g)
        lines += g + '\n'
    p.read_rewrite_lists(S.put('rewrite.def', lines))
    if before:
        compare(S, p, S.text('before', 2, tdom), table, ignore)
    compare(S, p, head + S.text('t', n, tdom) + tail, table, ignore)


ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
LETTERS = 'abAB'
MIX = 'abA㍍ﬁİⅠｶﾞ'
ASTRAL = 'a𝐚𐐀𐐨𝟏'


def cases(tier):
    q = tier == 'quick'
    out = [
        case('shipped-1', shipped, 'the shipped table, every text of one character', args=dict(n=1, doms=[ANY])),
        case('shipped-2', shipped, 'the shipped table, one character of any kind before one of the katakana and mark range',
             args=dict(n=2, doms=[ANY, ((0x3099, 0x309A), (0xFF66, 0xFF9F))])),
        case('shipped-3', shipped, 'the shipped table, 3 characters of half-width katakana and letters',
             args=dict(n=3, doms=['ｶﾊﾞﾟaＡⅠ㍍'])),
        case('one-key', own, 'a table with one entry of 2 characters, texts of 4', args=dict(klens=[2], vlens=[3], n=4, kdom='ab', vdom='xaA', tdom=LETTERS)),
        case('nested-keys', own, 'keys of 1, 2 and 3 characters, texts of 4',
             args=dict(klens=[3, 1, 2], vlens=[1, 2, 1], n=4, kdom='ab', vdom='xA', tdom='abB')),
        case('keys-order', own, 'keys of 1, 2 characters, ignore list, texts of 3',
             args=dict(klens=[1, 2], vlens=[2, 1], n=3, kdom='aA', vdom='xⅠ', tdom=MIX, ign='aⅰｶ')),
        case('other', own, 'another plugin with its own table used before, ignore list, texts of 2',
             args=dict(klens=[2], vlens=[1], n=2, kdom='aA', vdom='xⅠ', tdom='aAⅠｶ', ign='aⅰｶx', other=True)),
        case('astral', own, 'characters beyond the BMP, ignored or not, texts of 3',
             args=dict(klens=[1, 2], vlens=[2, 1], n=3, kdom='a𝟏', vdom='x𐐀', tdom=ASTRAL, ign='𝐚𐐨')),
        case('long-keys', own, 'keys of 3, 5, 6 and 12 characters, 4 characters between known ones',
             args=dict(klens=[], vlens=[], n=4, kdom='', vdom='', tdom='ab', fixed=[('aba', 'x'), ('ababa', 'yz'), ('bababb', 'w'), ('abababababab', 'v')],
                       head='ababaabab', tail='ababababbabababbab')),
        case('many-keys', own, '40 keys of one character, an entry of 2 characters, texts of 3',
             args=dict(klens=[2], vlens=[1], n=3, kdom='ぁあ', vdom='x', tdom='あいんぁ', fixed=[(chr(0x3042 + i), chr(0x30A2 + i)) for i in range(82)])),
        case('same-value', own, 'entries of 1 and 2 characters whose values may be the entries themselves, texts of 3',
             args=dict(klens=[1, 2], vlens=[1, 2], n=3, kdom='AＡⅠ', vdom='AＡⅠ', tdom='AＡⅠ')),
        case('twice', own, 'the same plugin used on a text of 2 and then on one of 3 characters',
             args=dict(klens=[2], vlens=[1], n=3, kdom='ab', vdom='xy', tdom='abA', before=True)),
    ]
    if not q:
        out += [
            case('shipped-any-2', shipped, 'the shipped table, 2 characters of any kind', args=dict(n=2, doms=[ANY])),
            case('nested-keys-5', own, 'keys of 1, 2 and 3 characters, texts of 5',
                 args=dict(klens=[3, 2, 1], vlens=[2, 3, 1], n=5, kdom='ab', vdom='xA', tdom='abB')),
            case('mixed-4', own, 'keys of 2 and 2 characters, ignore list, texts of 4 with expanding characters',
                 args=dict(klens=[2, 2], vlens=[1, 3], n=4, kdom='aA', vdom='xⅠ', tdom=MIX, ign='aⅰｶ')),
            case('twice-3', own, 'the same plugin used on a text of 2 and then on one of 4 characters',
                 args=dict(klens=[2, 1], vlens=[1, 2], n=4, kdom='ab', vdom='xy', tdom='abA', before=True)),
        ]
    return out
