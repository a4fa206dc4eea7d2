"""C09: results do not depend on what was analysed before."""
from common import (case, row, world, modes, report, system_bytes, user_bytes, full_matrix, matrix_text, dictionary,
                    WORLD, NUM, POS, MECAB, SIMPLE, NORMALIZE, PROLONGED, NUMJOIN, KATAJOIN, CHARDEF, UNK)

ASSUMPTIONS = ['histories of up to two earlier analyses; no concurrent use of one tokenizer (it is not promised)']
REQUIRED = ['same result', 'failed before', 'split before', 'other tokenizer']

OWN = ['名詞', '固有名詞', '利用者', '*', '*', '*']
USER = [row('東都', cost=-500, pos=OWN, a='0/3', dform='1'), row('東', cost=2000, pos=OWN, norm='ひがし'),
        row('京都', cost=-300, pos=POS, a='1/3', b='1/3', syn='5/6')]


def world_with_user(S):
    S.put('user.dic', user_bytes(S, USER, WORLD, full_matrix(1, 10)))
    return world(S, users=('user.dic',))


def word(S, name, doms):
    t = ''
    for i, d in enumerate(doms):
        t += S.char('%s%d' % (name, i), d)
    return t


def same(S, a, b):
    S.check(len(a) == len(b), 'the result is that of a fresh tokenizer')
    S.check(S.same(a, b), 'the result is that of a fresh tokenizer')
    S.reach('same result')


def sequence(S, first, second, before=('C',), then=('-', 'C', 'A', 'B'), other=False, user=False, lead=('', ''), tail=('', '')):
    make = world_with_user if user else world
    M = modes(S)
    d = make(S)
    tok = d.create()
    one, two = lead[0] + word(S, 's', first) + tail[0], lead[1] + word(S, 't', second) + tail[1]
    mode = S.choice('before', before) if len(before) > 1 else before[0]
    ml = (d.create() if other else tok).tokenize(one, M[mode])
    if other:
        S.reach('other tokenizer')
    if mode != 'C':
        S.reach('split before')
    kept = report(ml)
    for k in then:
        fresh = make(S).create()
        how = (M[k],) if k != '-' else ()     # '-': without a mode
        got = report(tok.tokenize(two, *how))
        S.observe('got' + k, [(b, e) for b, e, *_ in got])
        same(S, got, report(fresh.tokenize(two, *how)))
    S.check(S.same(report(ml), kept), 'a result does not change when more texts are analysed')


XPOS = ['記号', '一般', '*', '*', '*', '*']
FAIL = [row('x', right=1, cost=10), row('y', left=1, cost=10), row('xy', cost=200), row('z', cost=50), row('zx', right=1, cost=10), row('q', left=-1, pos=XPOS)]


def failing_world(S, kind):
    if kind == 'inhibited':
        S.put('fail.dic', system_bytes(S, FAIL, matrix_text(2, 2, [(1, 0, 32767), (0, 1, 5)])))
        return dictionary(S, system='fail.dic', oov=({'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': XPOS, 'leftId': 0, 'rightId': 0, 'cost': 90},),
                          chardef='DEFAULT 0 1 0\n')
    S.put('fail.dic', system_bytes(S, FAIL, full_matrix(2, 3)))
    return dictionary(S, system='fail.dic', oov=(MECAB,), chardef='KANJI 0 0 2\n0x4E00..0x9FFF KANJI\n0x0061..0x0061 ALPHA\nALPHA 1 1 0\n',
                      unk='KANJI,0,0,1700,名詞,普通名詞,一般,*,*,*\n')


def failure(S, kind, first, second, doms, twice=False):
    """Analyses that may fail before one that may fail."""
    d = failing_world(S, kind)
    tok = d.create()
    texts = [S.text('s', first, doms)] + ([S.text('r', 1, doms)] if twice else []) + [S.text('t', second, doms)]
    M = modes(S)
    for t in texts[:-1]:
        try:
            tok.tokenize(t)
        except Exception as e:
            S.reach('failed before')
    fresh = failing_world(S, kind).create()
    try:
        want = report(fresh.tokenize(texts[-1]))
    except Exception as e:
        try:
            tok.tokenize(texts[-1])
        except Exception as f:
            S.check(type(f).__name__ == type(e).__name__, 'a text is refused as by a fresh tokenizer')
            return
        S.fail('a text is refused as by a fresh tokenizer')
        return
    got = report(tok.tokenize(texts[-1]))
    S.observe('got', [(b, e) for b, e, *_ in got])
    same(S, got, want)


KANJI = '東京都川'


def cases(tier):
    q = tier == 'quick'
    out = [
        case('kanji', sequence, '2 characters of %s before 2, every mode before and after' % KANJI, args=dict(first=[KANJI] * 2, second=[KANJI] * 2, before='ABC')),
        case('user', sequence, 'words of a user dictionary before such words', args=dict(first=['東京', '都東'], second=['東京', '都東'], before='CA', user=True)),
        case('user-2', sequence, 'words of a user dictionary analysed in mode B by another tokenizer',
             args=dict(first=['東京', '都'], second=['東京都'] * 2, before='B', user=True, other=True)),
        case('shorter', sequence, '3 characters before 1, by the same tokenizer', args=dict(first=['東a', '京㍍', '都ｶ'], second=['東a1アー、'], before='C')),
        case('longer', sequence, '1 character before 3', args=dict(first=['東a1ア㍍'], second=['東a', '京ﾞ', '都1'], before='C')),
        case('other', sequence, 'another tokenizer of the same dictionary', args=dict(first=['東1', '京千'], second=['東1', '京.', '都2'], before='A', other=True)),
        case('numbers', sequence, 'numerals before numerals', args=dict(first=['12', '.,', '一2'], second=['1一', '.,千'], then=('C',))),
        case('marks', sequence, 'a numeral and 2 marks before a number with a mark', args=dict(first=['1東', ',.', ',.1'], second=[',.', '0千'], lead=('', '12'), tail=('', '00'), then=('C',))),
        case('marks-points', sequence, 'a number with two marks before another', args=dict(first=[',.', ',.'], second=[',.'], lead=('1', '1'), tail=('5', '500'), then=('C',))),
        case('gap', sequence, 'one of 3 words behind 60 letters before another', args=dict(first=['東京', '都a'], second=['東京都', '都川'], lead=('a' * 60, 'a' * 60))),
        case('gap-kana', sequence, 'words behind 40 katakana before others', args=dict(first=['東京', '都a'], second=['東京都', '都川'], lead=('アイ' * 20, 'イア' * 20), then=('C',))),
        case('katakana', sequence, 'katakana before katakana', args=dict(first=['アイー', 'イー〜'], second=['アイ', 'ーイ', 'アー'], then=('C',))),
        case('inhibited', failure, 'texts of 2 of which some are refused, before texts of 2', args=dict(kind='inhibited', first=2, second=2, doms='xyzw')),
        case('inhibited-long', failure, 'texts of 3 of which some are refused, before texts of 1', args=dict(kind='inhibited', first=3, second=1, doms='xyz')),
        case('inhibited-short', failure, 'texts of 1 before texts of 3', args=dict(kind='inhibited', first=1, second=3, doms='xyz')),
        case('no-word', failure, 'texts refused in the middle', args=dict(kind='no word', first=2, second=2, doms='xz東ア')),
        case('no-word-twice', failure, 'two texts refused in the middle', args=dict(kind='no word', first=3, second=2, doms='xア', twice=True)),
    ]
    if not q:
        out += [
            case('kanji-3', sequence, '2 characters before 3', args=dict(first=[KANJI] * 2, second=[KANJI] * 3, before='ABC')),
            case('user-3', sequence, 'words of a user dictionary before such words', args=dict(first=['東京都'] * 2, second=['東京都'] * 3, before='ABC', user=True)),
            case('mixed', sequence, '2 characters of several kinds before 2', args=dict(first=['東a1ア㍍ー'] * 2, second=['東a1ア㍍ー'] * 2, before='C')),
            case('inhibited-3', failure, 'texts of 3 before texts of 3', args=dict(kind='inhibited', first=3, second=3, doms='xyzw', twice=True)),
            case('no-word-3', failure, 'texts of 3 before texts of 3', args=dict(kind='no word', first=3, second=3, doms='xz東ア', twice=True)),
        ]
    return out
