"""C24: automatic costs of user words are computed only where asked."""
from common import (case, row, dictionary, system_bytes, user_bytes, matrix_text, layout, patched, param_at, cell_at, simple, CATCH, UNKPOS, MECAB,
                    NORMALIZE, PROLONGED, NUMJOIN, NUM, POS)

ASSUMPTIONS = [
    'the internal cost of an analysis is the own cost of its last word minus that of its first word (as MorphemeList.get_internal_cost defines it)',
    'the analysis is the one of an independent tokenizer with the dictionaries loaded before and without path rewriting',
    'displayed surfaces are not empty and can be analysed',
]
REQUIRED = ['computed', 'kept', 'clamped', 'several morphemes', 'one morpheme', 'second dictionary', 'unknown word']
AUTO = -32768
HIRA = 'DEFAULT 0 1 0\nHIRAGANA 0 0 1\n0x3041..0x309F HIRAGANA\n'


def auto(S, system, users, shape=(1, 1), text=(), catch=None, syscost=None, usercost=None, mecab=False, path=(), norm=None, read=None, given=None):
    """system: rows; users: rows of each user dictionary. The costs of all
    are symbolic."""
    left, right = shape
    base_rows = [row(w, a=a) if not p else row(w, a=a, pos=p) for w, a, p in system] + [row('zz%d' % k, left=-1, pos=p) for k, p in enumerate([CATCH] + UNKPOS)]
    matrix = matrix_text(left, right, [(x, y, 10 * x + 3 * y) for x in range(left) for y in range(right)])
    base = system_bytes(S, base_rows, matrix)
    lay = layout(base)
    cost, patch = [], {}
    for i in range(len(system)):
        c = S.int('c%d' % i, *(syscost or (-32768, 32767)))
        cost.append(c)
        patch[param_at(lay, i, 0)], patch[param_at(lay, i, 1)], patch[param_at(lay, i, 2)] = i % right, (i // 2) % left, c
    S.put('s.dic', patched(base, patch))
    sc = S.int('catch', *(catch or (0, 32767)))
    oov = [simple(0, 0, sc)]
    unkcost = 0
    unk = None
    if mecab:
        unkcost = 700
        unk = 'HIRAGANA,0,0,700,' + ','.join(UNKPOS[0]) + '\n'
        oov = [MECAB] + oov
    names, wanted, images, imgs = [], [], [], []
    params = []
    for k, rows in enumerate(users):
        img = user_bytes(S, [row(h, surface=s, norm=norm or s, read=read or s) for h, s in rows], base_rows, matrix)
        ul = layout(img)
        patch, mine = {}, []
        for i in range(len(rows)):
            c = given if given is not None and len(rows) > 9 and i not in (7, len(rows) - 2) else S.int('u%d_%d' % (k, i), *(usercost or (-32768, 32767)))
            l, r = (i + k) % right, i % left
            patch[param_at(ul, i, 0)], patch[param_at(ul, i, 1)], patch[param_at(ul, i, 2)] = l, r, c
            mine.append((l, r, c))
        data = patched(img, patch)
        S.put('u%d.dic' % k, data)
        imgs.append(data)
        names.append('u%d.dic' % k)
        params.append(mine)
    kw = dict(system='s.dic', oov=oov, text=text, chardef=HIRA, unk=unk)
    d = dictionary(S, users=names, path=path, **kw)
    got = [[(d.lexicon.get_left_id((k + 1) << 28 | i), d.lexicon.get_right_id((k + 1) << 28 | i), d.lexicon.get_cost((k + 1) << 28 | i))
            for i in range(len(rows))] for k, rows in enumerate(users)]
    for k, rows in enumerate(users):
        tok = None
        for i, (h, s) in enumerate(rows):
            l, r, c = params[k][i]
            gl, gr, gc = got[k][i]
            S.check(S.and_(gl == l, gr == r), 'ids stay as written')
            if not c == AUTO:
                S.check(gc == c, 'a cost is replaced only when it is -32768')
                S.reach('kept')
                continue
            if tok is None:
                before = dictionary(S, users=names[:k], **kw)
                tok = before.create()
            ml = list(tok.tokenize(s))
            own = []
            for m in ml:
                if m.is_oov():
                    own.append(sc if m.part_of_speech() == CATCH else unkcost)
                    S.reach('unknown word')
                elif m.dictionary_id() == 0:
                    own.append(cost[m.word_id()])
                else:
                    own.append(got[m.dictionary_id() - 1][m.word_id() & 0xFFFFFFF][2])
            want = own[-1] - own[0] - 20 * len(ml)
            S.check(gc == S.ite(want > 32767, 32767, S.ite(want < -32768, -32768, want)), 'a cost of -32768 becomes the cost of analysing the surface')
            S.reach('computed')
            S.reach('several morphemes' if len(ml) > 1 else 'one morpheme')
            if want > 32767 or want < -32768:
                S.reach('clamped')
            if k:
                S.reach('second dictionary')
    for i in range(len(system)):
        S.check(S.and_(d.lexicon.get_left_id(i) == i % right, d.lexicon.get_right_id(i) == (i // 2) % left, d.lexicon.get_cost(i) == cost[i]),
                'all other words stay as written')
    for k in range(len(users)):
        S.check(S.same(S.get(names[k]), imgs[k]), 'the file on disk is not modified')
    d.close()
    for k in range(len(users)):
        S.check(S.same(S.get(names[k]), imgs[k]), 'the file on disk is not modified')


AB = [('あ', '*', None), ('い', '*', None), ('あい', '*', None)]


SIX = [a + b + c + d + e + 'う' for a in 'いあう' for b in 'いあう' for c in 'いあう' for d in 'あいう' for e in 'あいうえ']


def same(*ws):
    return [(w, w) for w in ws]


def cases(tier):
    q = tier == 'quick'
    out = [
        case('one', auto, 'a user word of 2 characters over 3 system words, any costs', args=dict(system=AB, users=[same('あい')])),
        case('words', auto, '3 user words, any costs', args=dict(system=AB, users=[same('い', 'あいい', 'うい')], syscost=(-100, 100))),
        case('two', auto, 'two user dictionaries, any user costs', args=dict(system=AB[:2], users=[same('あい'), same('あいあ', 'い')], syscost=(0, 50))),
        case('shape', auto, 'a 2x2 matrix, any costs', args=dict(system=AB, users=[same('あいあ')], shape=(2, 2))),
        case('units', auto, 'a system word with units', args=dict(system=[('あ', '*', None), ('い', '*', None), ('あい', '0/1', None)], users=[same('あい', 'あいあ')], syscost=(-300, 300))),
        case('surface', auto, 'displayed surfaces that differ from the headwords', args=dict(
            system=AB, users=[[('あ', 'いあ'), ('いい', 'う'), ('う', 'ＡＢ')]], text=(NORMALIZE,), syscost=(0, 400))),
        case('rewritten', auto, 'surfaces that one or two plugins rewrite', args=dict(
            system=AB + [('Ａー', '*', None), ('aー', '*', None)], users=[[('あ', 'いーー'), ('う', 'Ａーーー')]], text=(NORMALIZE, PROLONGED), syscost=(0, 400))),
        case('forms', auto, 'normalized and reading forms that differ', args=dict(system=AB, users=[same('あいい', 'い')], norm='い', read='あああ', syscost=(-100, 100))),
        case('unknown', auto, 'unknown words', args=dict(system=[('あ', '*', None)], users=[same('あいい', 'い')], mecab=True)),
        case('dozens', auto, '300 words of which two have any costs', args=dict(system=AB, users=[same('い', *SIX[:299])], syscost=(-100, 100), given=77)),
        case('many', auto, 'a word analysed as 40 morphemes', args=dict(system=AB[:2], users=[same('あい' * 20)], syscost=(0, 900), usercost=(-32768, -32767))),
        case('join', auto, 'numeric joining in the settings', args=dict(
            system=[('1', '*', NUM), ('2', '*', NUM)], users=[same('12', '21')], path=(NUMJOIN,))),
    ]
    out += [
        case('three', auto, 'three user dictionaries', args=dict(system=AB[:2], users=[same('あい'), same('あいあ'), same('あいあい', 'いあ')], syscost=(0, 50))),
        case('long', auto, 'a user word of 4 characters, 2x2 matrix', args=dict(system=AB + [('いあ', '*', None), ('あいあ', '*', None)], users=[same('あいあい')], shape=(2, 2))),
        case('words-4', auto, '4 user words, any costs', args=dict(system=AB, users=[same('い', 'あいい', 'うい', 'あい')])),
    ]
    if not q:
        out += [
            case('long-5', auto, 'a user word of 5 characters, 3x3 matrix', args=dict(
                system=AB + [('いあ', '*', None), ('あいあ', '*', None), ('いあい', '*', None)], users=[same('あいあいあ', 'いあい')], shape=(3, 3))),
            case('four', auto, 'four user dictionaries', args=dict(
                system=AB, users=[same('あい'), same('あいあ'), same('あいあい', 'いあ'), same('いいい', 'うあい')], shape=(2, 3), syscost=(-99, 99))),
        ]
    return out
