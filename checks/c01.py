"""C01: morphemes tile the original text."""
from common import case, world, modes, MECAB, SIMPLE, NORMALIZE, PROLONGED, NUMJOIN, KATAJOIN

ASSUMPTIONS = ['units that a word declares spell the word and there are none or at least two of them']
REQUIRED = ['several morphemes', 'split', 'unknown word', 'joined', 'empty surface', 'empty text']

ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def tiles(S, ml, text):
    at = 0
    whole = ''
    n = 0
    for m in ml:
        S.check(m.begin() == at, 'a morpheme begins where the one before it ends')
        at = m.end()
        S.check(S.same(m.surface(), text[m.begin():at]), 'a surface is the text between begin and end')
        whole += m.surface()
        n += 1
        if m.is_oov():
            S.reach('unknown word')
        if len(m.surface()) == 0:
            S.reach('empty surface')
        if m.dictionary_id() == -1 and not m.is_oov():
            S.reach('joined')
    S.check(at == len(text), 'the last morpheme ends at the end of the text')
    S.check(S.same(whole, text), 'the surfaces concatenate to the text')
    if n > 1:
        S.reach('several morphemes')
    return n


def whole(S, doms, plugins=True, before='', after='', oov=(MECAB, SIMPLE), all_modes=True):
    kw = {} if plugins else {'text': (), 'path': ()}
    tok = world(S, oov=oov, **kw).create()
    text = before
    for i, d in enumerate(doms):
        text += S.char('t%d' % i, d)
    text += after
    M = modes(S)
    if all_modes:
        c = tiles(S, tok.tokenize(text, M['C']), text)
        a = tiles(S, tok.tokenize(text, M['A']), text)
        b = tiles(S, tok.tokenize(text, M['B']), text)
        if a > c or b > c:
            S.reach('split')
        S.observe('n', [a, b, c])
    else:
        tiles(S, tok.tokenize(text), text)


def empty(S):
    tok = world(S).create()
    m = S.choice('mode', ['A', 'B', 'C', ''])
    ml = tok.tokenize('', modes(S)[m]) if m else tok.tokenize('')
    S.check(len(ml) == 0, 'the empty text gives no morphemes')
    S.check(str(ml) == '', 'the empty text gives no morphemes')
    for x in ml:
        S.fail('the empty text gives no morphemes')
    S.reach('empty text')


KANJI = '東京都川'
NUMS = '12.,一千'
KATA = 'アイｱーー〜'
MIXED = 'aAé\u0301b ㍍ｶﾞ𠮷'


def cases(tier):
    q = tier == 'quick'
    out = [
        case('empty', empty, 'the empty text in every mode'),
        case('any-1', whole, 'every text of one character', args=dict(doms=[ANY])),
        case('any-after', whole, 'every character after a, and before 1', args=dict(doms=[ANY], before='a', after='1')),
        case('kanji-3', whole, '3 characters of %s, 都 after them' % KANJI, args=dict(doms=[KANJI] * 3, after='都')),
        case('numbers-3', whole, '3 characters of %s' % NUMS, args=dict(doms=[NUMS] * 3)),
        case('katakana-3', whole, '3 characters of %s and a mark' % KATA, args=dict(doms=[KATA] * 3, after='ー')),
        case('mixed-2', whole, '2 characters that grow, shrink or combine', args=dict(doms=[MIXED] * 2)),
        case('mixed-3', whole, 'an expanding character between others', args=dict(doms=['aAｶ𠮷', '㍍㌀ﾞ', 'ﾞaー']), ),
        case('even', whole, 'characters that grow and runs that shrink, in either order', args=dict(doms=['ﬁアa', 'ｶーa', 'ﾞーb', 'ﬁア都'])),
        case('plain-3', whole, '3 characters with no plugins but unknown words', args=dict(doms=['ab東京\u0301ア'] * 3, plugins=False)),
        case('long', whole, '1 character of %s behind 100 words' % KANJI, args=dict(doms=[KANJI], before='東京都' * 100, after='都')),
        case('longest', whole, 'one of 2 characters behind 21900 others', args=dict(doms=['川東'], before='東京都' * 7300, after='都', all_modes=False), steps=100_000_000),
        case('simple-3', whole, '3 characters with the simple provider alone', args=dict(doms=['ab1東\u0301'] * 3, oov=(SIMPLE,))),
    ]
    if not q:
        out += [
            case('any-2', whole, 'every character after any of seven', args=dict(doms=['aA1ア東㍍\u0301', ANY], all_modes=False)),
            case('any-kana', whole, 'every character between katakana', args=dict(doms=[ANY], before='ア', after='ー', all_modes=False)),
            case('kanji-4', whole, '4 characters of %s, 都 after them' % KANJI, args=dict(doms=[KANJI] * 4, after='都')),
            case('numbers-4', whole, '4 characters of %s' % NUMS, args=dict(doms=[NUMS] * 4)),
            case('katakana-4', whole, '4 characters of %s' % KATA, args=dict(doms=[KATA] * 4)),
            case('mixed-4', whole, '4 characters that grow, shrink or combine', args=dict(doms=[MIXED] * 4)),
            case('all-3', whole, '3 characters of all kinds', args=dict(doms=[''.join(sorted(set(KANJI + NUMS + KATA + MIXED)))] * 3, all_modes=False)),
            case('plain-4', whole, '4 characters with no plugins but unknown words', args=dict(doms=['ab東京\u0301ア'] * 4, plugins=False)),
        ]
    return out
