"""C05: runs of prolonged sound marks collapse to one mark."""
from common import case, Grammar

ASSUMPTIONS = ['the replacement symbol is not empty', 'the grammar is a stand-in whose only category is DEFAULT']
REQUIRED = ['collapsed', 'kept', 'long run']


def collapse(S, marks, n, rlen, dom, mdom, default=False, other=False):
    m = S.load('sudachipy.utf8inputtextbuilder')
    cat = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    ms = [S.char('m%d' % i, mdom) for i in range(marks)]
    conf = {'prolongedSoundMarks': ms}
    if other:       # another with its own marks, made and used before
        o = S.load('sudachipy.plugin.input_text.prolongedsoundmark').ProlongedSoundMarkInputTextPlugin(
            {'prolongedSoundMarks': ['ー', S.char('other', mdom)], 'replacementSymbol': '棒'})
        o.set_up()
        b = m.UTF8InputTextBuilder('アーーカ', Grammar(lambda c: {cat.DEFAULT}))
        o.rewrite(b)
        S.check(S.same(b.get_text(), 'ア棒カ'), 'runs of two or more marks become one symbol')
    if default:
        sym = 'ー'
    else:
        sym = S.text('sym', rlen, mdom)
        conf['replacementSymbol'] = sym
    p = S.load('sudachipy.plugin.input_text.prolongedsoundmark').ProlongedSoundMarkInputTextPlugin(conf)
    p.set_up()
    text = S.text('t', n, dom)
    b = m.UTF8InputTextBuilder(text, Grammar(lambda c: {cat.DEFAULT}))
    p.rewrite(b)
    out, pos, i = '', [], 0
    while i < n:
        j = i
        while j < n and S.or_(*[text[j] == k for k in ms]):
            j += 1
        if j - i >= 2:
            out += sym
            pos += [i] + [j] * (len(sym) - 1)
            i = j
            S.reach('collapsed')
            continue
        out += text[i]
        pos.append(i)
        i += 1
        S.reach('kept')
    pos.append(n)
    got = b.get_text()
    S.observe('text', got)
    S.check(len(got) == len(out), 'runs of two or more marks become one symbol')
    S.check(S.same(got, out), 'runs of two or more marks become one symbol')
    inp = b.build()
    at = 0
    for k in range(len(out)):
        S.check(inp.get_original_index(at) == pos[k], 'the symbol maps back to its run')
        at += len(got[k].encode('utf-8'))
    S.check(inp.get_original_index(at) == n, 'the symbol maps back to its run')


def many(S, run, tail, rlen, dom):
    """A long run of marks."""
    m = S.load('sudachipy.utf8inputtextbuilder')
    cat = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    sym = S.text('sym', rlen, dom)
    p = S.load('sudachipy.plugin.input_text.prolongedsoundmark').ProlongedSoundMarkInputTextPlugin({'prolongedSoundMarks': ['ー', '-', '〜'], 'replacementSymbol': sym})
    p.set_up()
    k = S.choice('run', [run, run + 1])
    a, z = S.text('a', 1, dom), S.text('z', tail, dom)
    for c in a + z:
        S.assume(S.and_(*[S.not_(S.same(c, x)) for x in 'ー-〜']))
    text = a + ('ー〜-' * k)[:k] + z + 'ーー'
    b = m.UTF8InputTextBuilder(text, Grammar(lambda c: {cat.DEFAULT}))
    p.rewrite(b)
    out = a + sym + z + sym
    S.check(S.same(b.get_text(), out), 'runs of two or more marks become one symbol')
    pos = [0] + [1] + [1 + k] * (rlen - 1) + list(range(1 + k, 1 + k + tail)) + [1 + k + tail] + [3 + k + tail] * rlen
    inp = b.build()
    at = 0
    for c, w in zip(out, pos):
        S.check(inp.get_original_index(at) == w, 'the symbol maps back to its run')
        at += len(c.encode('utf-8'))
    S.check(inp.get_original_index(at) == len(text), 'the symbol maps back to its run')
    S.reach('long run')


W3 = ((0x3041, 0xD7FF), (0xE000, 0xFFFF))
ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def cases(tier):
    q = tier == 'quick'
    out = [
        case('no-marks', collapse, 'no marks configured, texts of 3', args=dict(marks=0, n=3, rlen=1, dom=W3, mdom=W3)),
        case('one-mark', collapse, 'one mark of any kind, texts of 3 of any kind, symbol of one', args=dict(marks=1, n=3, rlen=1, dom=ANY, mdom=ANY)),
        case('other', collapse, 'two marks of another plugin made before, one mark, texts of 3, the default symbol', args=dict(marks=1, n=3, rlen=1, dom='ーアン〜', mdom='ン〜~', default=True, other=True)),
        case('default-symbol', collapse, 'two marks, texts of 5, the default symbol', args=dict(marks=2, n=5, rlen=1, dom=W3, mdom=W3, default=True)),
        case('long-symbol', collapse, 'two marks, texts of 6, symbol of two', args=dict(marks=2, n=6, rlen=2, dom=W3, mdom=W3)),
        case('longer-symbol', collapse, 'one mark, texts of 7, symbol of three', args=dict(marks=1, n=7, rlen=3, dom=W3, mdom=W3)),
        case('three-marks', collapse, 'three marks, texts of 4, symbol of one', args=dict(marks=3, n=4, rlen=1, dom=W3, mdom=W3)),
    ]
    out.append(case('run-256', many, 'a run of 256 or 257 marks between others', args=dict(run=256, tail=1, rlen=1, dom=W3)))
    out.append(case('run-64', many, 'a run of 64 or 65 marks between others', args=dict(run=64, tail=1, rlen=3, dom=W3)))
    out.append(case('run-128', many, 'a run of 128 or 129 marks between others', args=dict(run=128, tail=1, rlen=2, dom=W3)))
    out.append(case('long-run', many, 'a run of 300 marks between others', args=dict(run=300, tail=2, rlen=2, dom=W3)))
    if not q:
        out += [
            case('longest', collapse, 'two marks, texts of 9, symbol of two', args=dict(marks=2, n=9, rlen=2, dom=W3, mdom=W3)),
            case('wide', collapse, 'two marks of any kind, texts of 4 of any kind, symbol of two', args=dict(marks=2, n=4, rlen=2, dom=ANY, mdom=ANY)),
        ]
    return out
