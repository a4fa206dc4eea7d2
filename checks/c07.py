"""C07: the analysis returned is a cheapest one."""
from common import case, cheapest

ASSUMPTIONS = [
    'the characters of the texts are hiragana, so that a word may start at each',
    'connection costs other than the inhibited one (C08)',
    'texts of up to 45 characters, so totals stay far below the 32-bit range',
]
REQUIRED = ['several analyses', 'unknown word chosen', 'dictionary word chosen']

def cases(tier):
    q = tier == 'quick'
    out = [
        case('costs', cheapest, 'texts of 3 over a full set of words, any costs and 1x1 matrix',
             args=dict(texts=['あいう'], words=['あ', 'い', 'う', 'あい', 'いう', 'あいう'])),
        case('matrix', cheapest, 'a text of 3, any costs and any 2x2 matrix',
             args=dict(texts=['あいう'], words=['あ', 'い', 'う', 'あい', 'いう'], shape=(2, 2))),
        case('shape', cheapest, 'a text of 3, any costs and any matrix of 3 right by 2 left ids',
             args=dict(texts=['あいう'], words=['あ', 'い', 'う', 'あい'], shape=(3, 2))),
        case('shape2', cheapest, 'a text of 3, any costs and any matrix of 2 right by 3 left ids',
             args=dict(texts=['あいう'], words=['う', 'あい', 'いう', 'あ'], shape=(2, 3))),
        case('ids', cheapest, 'a text of 2, any ids, costs and 2x2 matrix',
             args=dict(texts=['あい'], words=['あ', 'い', 'あい'], shape=(2, 2), idkind='any')),
        case('homographs', cheapest, 'homographs with any costs', args=dict(texts=['ああ'], words=['あ', 'あ', 'ああ'], shape=(2, 1))),
        case('same-left', cheapest, 'three homographs of any ids and costs before another word, any 2x2 matrix',
             args=dict(texts=['あい'], words=['あ', 'あ', 'あ', 'い'], shape=(2, 2), idkind='any')),
        case('unknown', cheapest, 'unknown words of 1 and 2 characters against dictionary words, any costs',
             args=dict(texts=['あいう'], words=['あ', 'いう'], mecab=2)),
        case('unknown-2', cheapest, 'two unknown-word entries with any costs', args=dict(texts=['あい'], words=['あい', 'い'], mecab=1, entries=2, shape=(2, 2))),
        case('catch', cheapest, 'the catch-all provider where no word starts', args=dict(texts=['あいう', 'いあう', 'いうえ'], words=['あ', 'いう', 'あいう'])),
        case('user', cheapest, 'a user dictionary against the system dictionary, any costs',
             args=dict(texts=['あいう'], words=['あ', 'いう', 'う'], users=[['あ', 'あい']], shape=(2, 2))),
        case('users', cheapest, 'two user dictionaries, any costs', args=dict(texts=['あい'], words=['あい', 'い'], users=[['あ', 'い'], ['あい', 'あ']])),
        case('length-4', cheapest, 'texts of 4, any costs', args=dict(texts=['あいああ'], words=['あ', 'い', 'あい', 'いあ', 'ああ', 'あいあ'])),
        case('length-5', cheapest, 'texts of 5, any costs', args=dict(texts=['あいあいあ', 'ああいああ'], words=['あ', 'い', 'あい', 'いあ', 'ああ', 'あいあ'])),
        case('ids-3', cheapest, 'a text of 3, any ids, costs and 2x2 matrix',
                 args=dict(texts=['あいう'], words=['あ', 'い', 'あい', 'う'], shape=(2, 2), idkind='any')),
        case('matrix-3', cheapest, 'a text of 4, any costs and any 3x3 matrix',
                 args=dict(texts=['あいうあ'], words=['あ', 'い', 'う', 'あい', 'いう', 'うあ'], shape=(3, 3))),
        case('crowd', cheapest, '45 words that end at one place, three of them and the word behind with any costs',
             args=dict(texts=['あい'], words=['あ'] * 45 + ['い'], given={i: 5000 - 7 * i for i in range(45) if i not in (3, 40, 44)})),
        case('expensive', cheapest, 'a text of 45 characters, any costs, totals up to 1.4 million',
             args=dict(texts=['あ' * 43 + 'いう'], words=['あ', 'い', 'う', 'いう'])),
        case('users-9', cheapest, 'nine user dictionaries, any costs',
             args=dict(texts=['あい'], words=['い'], users=[['う']] * 6 + [['あ'], ['あ'], ['あい', 'あ']])),
        case('users-3', cheapest, 'three user dictionaries, any costs',
                 args=dict(texts=['あいう'], words=['あい', 'い', 'う'], users=[['あ', 'い'], ['いう', 'あ'], ['あいう']], shape=(2, 2))),
    ]
    if not q:
        out += [
            case('unknown-4', cheapest, 'unknown words of 1 to 3 characters, two entries, any costs',
                 args=dict(texts=['あいう'], words=['あ', 'いう', 'あい'], mecab=3, entries=2, shape=(2, 2))),
            case('ids-3x3', cheapest, 'a text of 2, any ids, costs and 3x3 matrix',
                 args=dict(texts=['あい'], words=['あ', 'い', 'あい'], shape=(3, 3), idkind='any')),
            case('length-6', cheapest, 'texts of 6, any costs, any 2x2 matrix', args=dict(texts=['あいあいああ', 'ああああああ'], words=['あ', 'い', 'あい', 'いあ', 'ああ', 'あいあ'], shape=(2, 2))),
        ]
    return out
