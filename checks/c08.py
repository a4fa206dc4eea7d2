"""C08: inhibited connections are never used."""
from common import case, cheapest

ASSUMPTIONS = [
    'the characters of the texts are hiragana, so that a word may start at each',
    'the plugin is set up and applied by the caller, as the package itself does not load it',
]
REQUIRED = ['several analyses', 'unknown word chosen', 'dictionary word chosen', 'refused']


def plugged(S, lefts, rights, n=1, junk=False, **kw):
    """Pairs given to the plugin."""
    pairs = []
    for i in range(n):
        pairs.append([S.int('pl%d' % i, 0, lefts - 1), S.int('pr%d' % i, 0, rights - 1)])
    if junk:
        pairs.insert(1, [0])
        pairs.append([])
    cheapest(S, shape=(lefts, rights), pairs=pairs, **kw)


def cases(tier):
    q = tier == 'quick'
    out = [
        case('one', cheapest, 'a 1x1 matrix of any cost', args=dict(texts=['あい'], words=['あ', 'い', 'あい'], inhibit=1)),
        case('matrix', cheapest, 'a text of 3, any costs and any 2x2 matrix',
             args=dict(texts=['あいう'], words=['あ', 'い', 'う', 'あい', 'いう'], shape=(2, 2), inhibit=1)),
        case('shape', cheapest, 'a text of 2, any costs and any matrix of 3 right by 2 left ids',
             args=dict(texts=['あい'], words=['あ', 'い', 'あい', 'い'], shape=(3, 2), inhibit=1)),
        case('shape2', cheapest, 'a text of 2, any costs and any matrix of 2 right by 3 left ids',
             args=dict(texts=['あい'], words=['あ', 'い', 'あい', 'い'], shape=(2, 3), inhibit=1)),
        case('ids', cheapest, 'a text of 2, any ids, costs and 2x2 matrix', args=dict(texts=['あい'], words=['あ', 'い', 'あい'], shape=(2, 2), idkind='any', inhibit=1)),
        case('unknown', cheapest, 'unknown words of 1 and 2 characters, any 2x2 matrix',
             args=dict(texts=['あいう'], words=['あ', 'いう'], mecab=2, entries=2, shape=(2, 2), inhibit=1)),
        case('user', cheapest, 'a user dictionary, any 2x2 matrix', args=dict(texts=['あい'], words=['あ', 'い'], users=[['あ', 'あい']], shape=(2, 2), inhibit=1)),
        case('plugin', plugged, 'one pair inhibited by the plugin before the tokenizer is made',
             args=dict(lefts=2, rights=2, texts=['あいう'], words=['あ', 'い', 'あい', 'う'])),
        case('plugin-late', plugged, 'pairs inhibited by the plugin after the tokenizer is made, with entries that are no pairs',
             args=dict(lefts=2, rights=3, n=2, junk=True, texts=['あい'], words=['あ', 'い', 'あい', 'い'], late=True)),
        case('plugin-all', plugged, 'a pair inhibited by the plugin and any 2x2 matrix',
             args=dict(lefts=2, rights=2, texts=['あい'], words=['あ', 'い', 'あい'], inhibit=1)),
    ]
    if not q:
        out += [
            case('length-4', cheapest, 'a text of 4, any costs, any 2x2 matrix', args=dict(texts=['あいああ'], words=['あ', 'い', 'あい', 'いあ', 'ああ', 'あいあ'], shape=(2, 2), inhibit=1)),
            case('shape-3', cheapest, 'a text of 3, any costs and any 3x3 matrix',
                 args=dict(texts=['あいう'], words=['あ', 'い', 'う', 'あい', 'いう', 'う'], shape=(3, 3), inhibit=1)),
            case('plugin-3', plugged, 'three pairs inhibited by the plugin', args=dict(lefts=3, rights=2, n=3, texts=['あいう'], words=['あ', 'い', 'あい', 'う', 'いう'])),
        ]
    return out
