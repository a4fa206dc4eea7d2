"""C27: settings resolve to the configured dictionary, files and plugins."""
from common import (case, row, dictionary, system_bytes, user_bytes, full_matrix, simple, CATCH, NORMALIZE, NUMJOIN, KATAJOIN, POS, NUM, SYM, WORLD, SIMPLE, MECAB,
                    PROLONGED, CHARDEF, Packages, TYPES)

ASSUMPTIONS = ['path components are not "." or ".." or empty', 'dictionary packages are stand-ins with a file resources/system.dic']
REQUIRED = ['absolute path', 'relative path', 'resource directory given', 'resource directory of the settings', 'package by type', 'package by default', 'settings used',
            'unknown type refused', 'missing package refused', 'second dictionary', 'order matters', 'own options', 'unknown class refused', 'missing class refused',
            'no provider refused', 'class accepted', 'default settings',
            'unknown part of speech refused', 'part of speech accepted']
NAME = ((0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A), (0x3041, 0x3096))


def component(S, name, n):
    """A path: (text, whether it is absolute)."""
    where = S.choice(name + '.kind', ['a', 'd/a', '/a', '/d/a'])
    t = S.text(name, n, NAME)
    return where.replace('a', '') + t, where[0] == '/'


def resolved(S, base, name):
    path, absolute = name
    S.reach('absolute path' if absolute else 'relative path')
    return path if absolute else base + '/' + path


def paths(S, n, users):
    """Where any names lead to."""
    own = S.path('conf')
    base = own
    res = None
    if S.bool('resource directory'):
        res = '/' + S.text('resources', n, NAME)
        base = res
        S.reach('resource directory given')
    else:
        S.reach('resource directory of the settings')
    sysd = component(S, 'system', n)
    chard = component(S, 'char', n)
    us = [component(S, 'user%d' % k, n) for k in range(users)]
    conf = {'systemDict': sysd[0], 'characterDefinitionFile': chard[0]}
    if us or S.bool('empty list'):
        conf['userDict'] = [u[0] for u in us]
    settings = S.load('sudachipy.config').settings
    p = S.put('conf/sudachi.json', conf)
    if res is None:
        settings.set_up(p)
    else:
        settings.set_up(config_path=p, resource_dir=res)
    S.check(S.same(str(settings.system_dict_path()), resolved(S, base, sysd)), 'a relative path is taken from the resource directory')
    S.check(S.same(str(settings.char_def_path()), resolved(S, base, chard)), 'a relative path is taken from the resource directory')
    S.check(S.same([str(u) for u in settings.user_dict_paths()], [resolved(S, base, u) for u in us]), 'user dictionaries keep their order')


def kinds(S, letters, anything=False):
    """Which system dictionary is chosen."""
    installed = [t for t in TYPES if S.bool('installed.' + t)]
    conf = {'characterDefinitionFile': 'char.def'}
    how = S.choice('systemDict', ['missing', 'empty', 'relative', 'absolute', 'package'])
    if how == 'empty':
        conf['systemDict'] = ''
    elif how == 'relative':
        conf['systemDict'] = 'own.dic'
    elif how == 'absolute':
        conf['systemDict'] = S.path('far/own.dic')
    elif how == 'package':
        conf['systemDict'] = S.path('site/sudachidict_small/resources/system.dic')
    given = S.choice('given', [None, 'text'] if letters else [None, 'small', 'core', 'full', '', 'Core', 'core '])
    if given == 'text':
        given = S.text('type', letters, 'acefllmorsu' if not anything else S.ANY)
    settings = S.load('sudachipy.config').settings
    p = S.put('conf/sudachi.json', conf)
    with Packages(S, installed) as pack:
        want = None
        if given is not None:
            for t in TYPES:
                if given == t:
                    want = t
            if want is None:
                S.reach('unknown type refused')
            elif want in installed:
                want = pack.file(want)
                S.reach('package by type')
            else:
                want = None
                S.reach('missing package refused')
        elif how in ('missing', 'empty'):
            if 'core' in installed:
                want = pack.file('core')
                S.reach('package by default')
            else:
                S.reach('missing package refused')
        else:
            want = S.path('conf/own.dic') if how == 'relative' else conf['systemDict']
            S.reach('settings used')
        try:
            if given is None and S.bool('no type'):
                settings.set_up(p)
            else:
                settings.set_up(p, None, given)
            got = settings.system_dict_path()
        except Exception as e:
            S.observe('error', type(e).__name__)
            S.check(want is None, 'a dictionary that exists is found')
            return
        S.check(want is not None, 'an unknown type or a missing package is refused')
        S.check(str(got) == want, 'the type overrides the settings and the core dictionary is the default')


def lexicon(S, name):
    """A system dictionary that tells its name."""
    return system_bytes(S, [row('あ', cost=10, read=name), row('い', cost=20, read=name + 'い', pos=CATCH), row('x', left=-1, pos=NUM)], full_matrix(1))


def reading(S, tok, text='あ'):
    return [m.reading_form() for m in tok.tokenize(text)]


def places(S, histories=1, few=False):
    """Files of the same name in several directories; each dictionary keeps
    what it was made from."""
    for d in ('conf', 'res', 'more'):
        S.put(d + '/system.dic', lexicon(S, d))
        S.put(d + '/user.dic', user_bytes(S, [row('う', cost=10, read='user ' + d)], [row('あ')], full_matrix(1)))
        S.put(d + '/char.def', 'DEFAULT 0 1 0\n' + ('0x0030..0x0039 NUMERIC\n' if d == 'res' else ''))
        S.put(d + '/mecab.def', 'DEFAULT 0 1 0\nNUMERIC 1 %d 0\n' % (1 if d == 'res' else 0))
        S.put(d + '/unk.def', 'NUMERIC,0,0,100,' + ','.join(POS) + '\nDEFAULT,0,0,%d,' % (50 if d == 'conf' else 5000) + ','.join(POS) + '\n')
    # files of these names also in the working directory
    S.put('system.dic', lexicon(S, 'here'))
    S.put('user.dic', user_bytes(S, [row('う', cost=10, read='user here')], [row('あ')], full_matrix(1)))
    S.put('char.def', 'DEFAULT 0 1 0\n0x0031 NUMERIC\n')
    S.inside(lambda: placed(S, histories, few))


def placed(S, histories, few):
    D = S.load('sudachipy.dictionary').Dictionary
    made = []
    with Packages(S, ['small']) as pack:
        S.put('site/sudachidict_small/resources/system.dic', lexicon(S, 'small'))
        for k in range(histories):
            place = {}
            conf = {}
            for key, f in (('systemDict', 'system.dic'), ('characterDefinitionFile', 'char.def'), ('userDict', 'user.dic')):
                how = S.choice('%s%d' % (key, k), ['name', 'res'] if few else ['name', 'conf', 'res'])
                conf[key] = f if how == 'name' else S.path(how + '/' + f)
                place[key] = how
            conf['userDict'] = [conf['userDict']]
            conf['oovProviderPlugin'] = [simple(0, 0, 3000)]
            home = 'more' if k and few and S.bool('elsewhere%d' % k) else 'conf'
            p = S.put('%s/sudachi%d.json' % (home, k), conf)
            res = S.bool('res%d' % k)
            short = few and S.bool('relative%d' % k)
            if short:
                # of the working directory
                p = '%s/sudachi%d.json' % (home, k)
            d = 'res' if res else home
            kind = S.bool('type%d' % k) if not few else bool(k)
            args = {'config_path': p}
            if res:
                args['resource_dir'] = 'res' if short else S.path('res')
            if kind:
                args['dict_type'] = 'small'
            made.append((D(**args), 'small' if kind else place['systemDict'].replace('name', d), place['userDict'].replace('name', d),
                         place['characterDefinitionFile'].replace('name', d)))
            if k:
                S.reach('second dictionary')
        C = S.load('sudachipy.dictionarylib.categorytype').CategoryType
        for d, one, two, three in made:
            tok = d.create()
            S.check(reading(S, tok, 'あう') == [one, 'user ' + two], 'every dictionary uses the files of its own settings')
            cats = d.grammar.get_character_category().get_category_types(0x31)
            S.check((C.NUMERIC in cats) == (three == 'res'), 'every dictionary uses the files of its own settings')


POSES = [POS, CATCH, NUM]
KATA = 'DEFAULT 0 1 0\nKATAKANA 1 0 1\n0x30A1..0x30FF KATAKANA\n0x30FC KATAKANA\n0x0030..0x0039 NUMERIC\n'
SYSTEM = [row('あ', cost=10), row('い', cost=10, pos=CATCH), row('1', cost=10, pos=NUM), row('2', cost=10, pos=NUM), row('ヌ', cost=10, pos=NUM)]


def provider(S, k, n):
    """A provider with options of its own."""
    pos = S.choice('pos%d' % k, range(len(POSES)))
    cost = S.int('cost%d' % k, -100, 100)
    c = dict(simple(0, 0, cost), oovPOS=POSES[pos])
    return c, pos


def providers(S, n):
    """Unknown-word plugins in their order: what the first one gives is taken
    into account by the next (the simple provider offers a word where there
    is none)."""
    conf, poses = [], []
    for k in range(n):
        c, pos = provider(S, k, n)
        conf.append(c)
        poses.append(pos)
    S.put('system.dic', system_bytes(S, SYSTEM, full_matrix(1)))
    d = dictionary(S, oov=conf, chardef=KATA)
    ms = d.create().tokenize('あネ')
    S.check(len(ms) == 2 and ms[1].is_oov() and ms[1].part_of_speech() == POSES[poses[0]], 'plugins are used in the configured order with their own options')
    S.reach('own options')
    if len(set(poses)) > 1:
        S.reach('order matters')


def mixed(S):
    """The unknown-word definition before or after the simple provider."""
    first = S.bool('definition first')
    t = S.text('cost', 4, '0123456789')
    own = dict(MECAB, charDef=S.choice('charDef', ['own.def', 'char.def']), unkDef='own_unk.def')
    S.put('own.def', KATA.replace('KATAKANA 1 0 1', 'KATAKANA 1 1 0'))
    S.put('own_unk.def', 'KATAKANA,0,0,' + t + ',' + ','.join(POSES[2]) + '\n')
    oov = [own, simple(0, 0, 1500)] if first else [simple(0, 0, 1500), own]
    S.put('system.dic', system_bytes(S, SYSTEM, full_matrix(1)))
    d = dictionary(S, oov=oov, chardef=KATA)
    ms = d.create().tokenize('ネネ')
    v = 0
    for c in S.codes(t):
        v = v * 10 + (c - 48)
    group = own['charDef'] == 'own.def'
    right = 'plugins are used in the configured order with their own options'
    S.reach('own options')
    got = [(m.surface(), m.part_of_speech() == POSES[2]) for m in ms]
    S.observe('got', [list(x) for x in got])
    own_words = [('ネネ', True)] if group else [('ネ', True), ('ネ', True)]
    if first:
        # the simple provider has nothing to add
        S.check(got == own_words, right)
        return
    S.reach('order matters')
    limit = 3000 if group else 1500
    S.check(S.implies(v < limit, got == own_words), right)
    S.check(S.implies(v > limit, got == [('ネ', False), ('ネ', False)]), right)


def rewriters(S, n):
    """Joining plugins in their order with their own options."""
    conf = []
    poses = []
    least = []
    for k in range(n):
        p = S.choice('pos%d' % k, range(len(POSES)))
        c = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': POSES[p]}
        m = S.choice('least%d' % k, [None, 1, 2, 3])
        if m is not None:
            c['minLength'] = m
        conf.append(c)
        poses.append(POSES[p])
        least.append(1 if m is None else m)
    S.put('system.dic', system_bytes(S, SYSTEM, full_matrix(1)))
    d = dictionary(S, oov=[simple(0, 0, 9000)], path=conf, chardef=KATA)
    length = S.choice('length', [1, 2, 3])
    ms = list(d.create().tokenize('あ' + 'ヌ' * length + 'あ'))
    # words of one character; a word shorter than the least length is joined
    # with its neighbours
    want = [(1, NUM)] * length
    for p, m in zip(poses, least):
        if len(want) > 1 and want[0][0] < m:
            want = [(sum([w[0] for w in want]), p)]
            S.reach('own options')
    S.check([m.surface() for m in ms] == ['あ'] + ['ヌ' * w[0] for w in want] + ['あ'], 'plugins are used in the configured order with their own options')
    S.check([list(m.part_of_speech()) for m in ms[1:-1]] == [w[1] for w in want], 'plugins are used in the configured order with their own options')
    if len(set([tuple(p) for p in poses])) > 1:
        S.reach('order matters')


def numbers(S):
    """The numeral plugin with and without its option."""
    conf = {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin'}
    on = S.choice('normalize', [None, True, False])
    if on is not None:
        conf['enableNormalize'] = on
    rows = [row('1', cost=10, pos=NUM), row('千', cost=10, pos=NUM), row('x', left=-1, pos=CATCH)]
    S.put('system.dic', system_bytes(S, rows, full_matrix(1)))

    def make(c):
        return dictionary(S, oov=[simple(0, 0, 9000)], path=[c], chardef='DEFAULT 0 1 0\n0x0031 NUMERIC\n0x5343 KANJINUMERIC\n').create()
    other = S.choice('made', [None, 'before', 'behind'])
    opposite = dict(conf, enableNormalize=not on)
    if other == 'before':
        make(opposite).tokenize('1千')
    tok = make(conf)
    if other == 'behind':
        make(opposite).tokenize('1千')
    ms = tok.tokenize('1千')
    if on is not None:
        S.check([m.normalized_form() for m in ms] == (['1000'] if on else ['1千']), 'plugins are used in the configured order with their own options')
    elif other:     # what the option is when it is not given is the same with and without others
        S.check([m.normalized_form() for m in ms] == ['1000'], 'plugins are used in the configured order with their own options')
    S.check(str(ms) == '1千' and len(ms) == 1, 'plugins are used in the configured order with their own options')
    S.reach('own options')


def marks(S, n):
    """Input plugins in their order with their own options."""
    a, b = S.choice('marks', [('ー', '-'), ('-', '~'), ('ー', '〜')])
    rep = S.choice('symbol', [None, 'ー', '-', 'X'])
    own = {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin', 'prolongedSoundMarks': [a, b]}
    if rep is not None:
        own['replacementSymbol'] = rep
    first = S.bool('marks first')
    alone = S.bool('alone')
    conf = [own] if alone else [own, NORMALIZE] if first else [NORMALIZE, own]
    rows = [row('あ', cost=10), row('い', cost=10, pos=CATCH)]
    S.put('system.dic', system_bytes(S, rows, full_matrix(1)))
    d = dictionary(S, oov=[simple(0, 0, 900)], text=conf, chardef='DEFAULT 0 1 0\n')
    t = ''
    for k in range(n):
        t += S.choice('char%d' % k, ['ー', '-', '－', 'ｰ', 'Ｘ'])
    ms = d.create().tokenize(t + 'あ')
    wide = {'－': '-', 'ｰ': 'ー', 'Ｘ': 'x', 'X': 'x'}

    def normal(s):
        return ''.join([wide.get(c, c) for c in s])

    def joined(s):
        out = ''
        run = ''
        for c in s:
            if c in (a, b):
                run += c
                continue
            out += run if len(run) < 2 else rep or 'ー'
            out += c
            run = ''
        return out + (run if len(run) < 2 else rep or 'ー')
    want = joined(t) if alone else normal(joined(t)) if first else joined(normal(t))
    S.check(''.join([m.normalized_form() for m in ms]) == want + 'あ', 'plugins are used in the configured order with their own options')
    S.check(str(ms) == t + 'あ' and not ms[len(ms) - 1].is_oov(), 'plugins are used in the configured order with their own options')
    S.reach('own options')
    if first and not alone and normal(joined(t)) != joined(normal(t)):
        S.reach('order matters')


CLASSES = {'inputTextPlugin': [NORMALIZE, PROLONGED], 'oovProviderPlugin': [SIMPLE, MECAB], 'pathRewritePlugin': [NUMJOIN, KATAJOIN]}


def classes(S, key, dom, at=None, shorter=False):
    """A class name with any character anywhere."""
    ok = S.choice('plugin', CLASSES[key])
    name = ok['class']
    if at is None:
        k = S.choice('place', range(len(name)))
    else:
        k = at % len(name)
    c = S.char('character', dom)
    other = name[:k] + (c + name[k:] if shorter else c + name[k + 1:])
    p = dict(ok)
    missing = S.bool('missing')
    if missing:
        del p['class']
    else:
        p['class'] = other
    # alone, or after a known one
    ps = [CLASSES[key][0], p] if S.bool('second') else [p]
    conf = {'inputTextPlugin': [], 'oovProviderPlugin': [SIMPLE], 'pathRewritePlugin': []}
    conf[key] = ps
    S.put('system.dic', system_bytes(S, SYSTEM, full_matrix(1)))
    try:
        d = dictionary(S, oov=conf['oovProviderPlugin'], text=conf['inputTextPlugin'], path=conf['pathRewritePlugin'], chardef=KATA,
                       unk='KATAKANA,0,0,100,' + ','.join(NUM) + '\n')
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.check(S.or_(missing, other != name), 'a known plugin class is accepted')
        S.reach('missing class refused' if missing else 'unknown class refused')
        return
    S.check(S.not_(missing), 'a plugin without class is refused')
    S.check(other == name, 'an unknown plugin class is refused')
    S.reach('class accepted')


def without(S):
    """No unknown-word plugin, or plugins without a required option."""
    S.put('system.dic', system_bytes(S, SYSTEM, full_matrix(1)))
    what = S.choice('what', ['no list', 'empty list', 'pos', 'cost', 'left', 'right', 'charDef', 'unkDef', 'join pos', 'settings key', 'file'])
    conf = {}
    oov = [SIMPLE]
    path = []
    if what == 'empty list':
        oov = []
    elif what in ('pos', 'cost', 'left', 'right'):
        bad = dict(SIMPLE)
        del bad[{'pos': 'oovPOS', 'cost': 'cost', 'left': 'leftId', 'right': 'rightId'}[what]]
        oov = [bad]
    elif what in ('charDef', 'unkDef'):
        bad = dict(MECAB)
        del bad[what]
        oov = [bad, SIMPLE]
    elif what == 'join pos':
        path = [{'class': KATAJOIN['class'], 'minLength': 2}]
    S.put('char.def', KATA)
    S.put('unk.def', 'KATAKANA,0,0,100,' + ','.join(NUM) + '\n')
    d = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'oovProviderPlugin': oov, 'pathRewritePlugin': path}
    if what == 'no list':
        del d['oovProviderPlugin']
    elif what == 'settings key':
        del d['characterDefinitionFile']
    elif what == 'file':
        d['systemDict'] = 'none.dic'
    try:
        S.load('sudachipy.dictionary').Dictionary(S.put('sudachi.json', d))
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.reach('no provider refused')
        return
    S.fail('incomplete settings are refused')


def absent(S, both):
    """Settings that have only some of the keys, after others."""
    KEYS = ['systemDict', 'userDict', 'inputTextPlugin', 'pathRewritePlugin', 'characterDefinitionFile', 'oovProviderPlugin']
    S.put('own.dic', system_bytes(S, [row('あ', read='own', cost=10)] + SYSTEM[1:], full_matrix(1)))
    S.put('user.dic', user_bytes(S, [row('う', cost=10, read='user')], SYSTEM, full_matrix(1)))
    S.put('char.def', KATA)
    D = S.load('sudachipy.dictionary').Dictionary
    full = {'systemDict': 'own.dic', 'userDict': ['user.dic'], 'inputTextPlugin': [NORMALIZE], 'pathRewritePlugin': [NUMJOIN],
            'characterDefinitionFile': 'char.def', 'oovProviderPlugin': [simple(0, 0, 3000)]}
    made = []
    with Packages(S, ['core']):
        S.put('site/sudachidict_core/resources/system.dic', system_bytes(S, [row('あ', read='core', cost=10)] + SYSTEM[1:], full_matrix(1)))
        for k in range(2):
            has = [S.bool('has%d.%s' % (k, x)) if k or (both and x[0] in 'ui') else True for x in KEYS]
            conf = {x: full[x] for x, h in zip(KEYS, has) if h}
            has = dict(zip(KEYS, has))
            good = has['characterDefinitionFile'] and has['oovProviderPlugin']
            try:
                d = D(S.put('sudachi%d.json' % k, conf))
            except Exception as e:
                S.observe('error', type(e).__name__)
                S.check(not good, 'settings are used as they are')
                S.reach('no provider refused')
                continue
            S.check(good, 'incomplete settings are refused')
            made.append((d, has))
        for d, has in made:
            got = d.create().tokenize('あＡ12う')
            S.check(got[0].reading_form() == ('own' if has['systemDict'] else 'core'), 'every dictionary uses the files of its own settings')
            S.check(got[1].normalized_form() == ('a' if has['inputTextPlugin'] else 'Ａ'), 'plugins are used in the configured order with their own options')
            S.check(got[2].surface() == ('12' if has['pathRewritePlugin'] else '1'), 'plugins are used in the configured order with their own options')
            S.check(got[len(got) - 1].reading_form() == ('user' if has['userDict'] else ''), 'every dictionary uses the files of its own settings')
    if len(made) > 1:
        S.reach('second dictionary')


def speech(S, which, n):
    """A part of speech with any component in the place of another."""
    plugin = dict({'simple': SIMPLE, 'katakana': KATAJOIN}[which])
    k = S.choice('component', [0, 4, 5])
    t = S.text('text', n, NAME + ((0x2A, 0x2A),))
    own = ['a', 'b', 'c', 'd', '*', 'f']
    other = list(own)
    other[k] = t
    less = S.choice('number', [6, 5, 7])
    plugin['oovPOS'] = (other + ['*'])[:less]
    S.put('system.dic', system_bytes(S, [row('あ', pos=own), row('ヌ', pos=['x'] + own[1:])], full_matrix(1)))
    try:
        if which == 'simple':
            d = dictionary(S, oov=[plugin])
        else:
            d = dictionary(S, oov=[dict(SIMPLE, oovPOS=own)], path=[plugin], chardef=KATA)
    except Exception as e:
        S.observe('error', type(e).__name__)
        known = S.or_(S.same(t, own[k]), S.same(t, 'x') if k == 0 else False)
        S.check(S.not_(S.and_(known, less == 6)), 'a part of speech of the dictionary is accepted')
        S.reach('unknown part of speech refused')
        return
    got = d.create().tokenize('い' if which == 'simple' else 'ネヌ')
    S.check(less == 6, 'a part of speech the dictionary does not have is refused')
    S.check(S.same([list(m.part_of_speech()) for m in got], [other]), 'a part of speech the dictionary does not have is refused')
    S.reach('part of speech accepted')


def default(S):
    """Without settings: the settings of the package and the core dictionary."""
    rows = [row('あ', cost=10, read='%s'), row('い', pos=NUM)] + [row('x%d' % k, left=-1, pos=p) for k, p in enumerate([
        ['補助記号', '一般', '*', '*', '*', '*'], ['空白', '*', '*', '*', '*', '*'], ['名詞', '普通名詞', 'サ変可能', '*', '*', '*'], ['名詞', '固有名詞', '一般', '*', '*', '*'],
        ['名詞', '固有名詞', '人名', '一般', '*', '*'], ['名詞', '固有名詞', '地名', '一般', '*', '*'], ['感動詞', '一般', '*', '*', '*', '*']])]
    rows.append(row('う', cost=10))
    D = S.load('sudachipy.dictionary').Dictionary
    with Packages(S, TYPES):
        for t in TYPES:
            own = [list(r) for r in rows]
            own[0][11] = t
            S.put('site/sudachidict_' + t + '/resources/system.dic', system_bytes(S, own, full_matrix(1)))
        t = S.choice('type', [None] + TYPES)
        d = D() if t is None else D(dict_type=t)
        S.check(reading(S, d.create(), 'あう')[:1] == [t or 'core'], 'the type overrides the settings and the core dictionary is the default')
        S.reach('default settings')


def cases(tier):
    q = tier == 'quick'
    out = [
        case('paths', paths, 'any names of 2 characters', args=dict(n=2, users=1)),
        case('paths-same', paths, 'any names of 1 character, two user dictionaries', args=dict(n=1, users=2)),
        case('kinds', kinds, 'any type, settings and installed packages', args=dict(letters=0)),
        case('kinds-4', kinds, 'any type of 4 letters', args=dict(letters=4)),
        case('kinds-5', kinds, 'any type of 5 letters', args=dict(letters=5)),
        case('places', places, 'a dictionary from files anywhere'),
        case('places-few', places, 'two dictionaries from files in two directories', args=dict(histories=2, few=True)),
        case('providers-2', providers, 'two simple providers with any options', args=dict(n=2)),
        case('mixed', mixed, 'the definition and the simple provider, any cost'),
        case('rewriters-2', rewriters, 'two joining plugins with any options', args=dict(n=2)),
        case('numbers', numbers, 'the numeral plugin'),
        case('marks', marks, 'input plugins on a text of 2', args=dict(n=2)),
        case('classes-text', classes, 'an input plugin class with any ASCII character', args=dict(key='inputTextPlugin', dom=((32, 126),), at=24)),
        case('classes-oov', classes, 'a provider class with any ASCII character', args=dict(key='oovProviderPlugin', dom=((32, 126),), at=-2)),
        case('classes-path', classes, 'a joining class with any ASCII character', args=dict(key='pathRewritePlugin', dom=((32, 126),), at=33)),
        case('speech-simple', speech, 'a part of speech with any component of one character', args=dict(which='simple', n=1)),
        case('speech-join', speech, 'the same of the joining plugin', args=dict(which='katakana', n=1)),
        case('absent', absent, 'a second dictionary whose settings have only some keys', args=dict(both=False)),
        case('without', without, 'incomplete settings'),
        case('default', default, 'the settings of the package'),
    ]
    if not q:
        out += [
            case('absent-both', absent, 'two dictionaries whose settings have only some keys', args=dict(both=True)),
            case('paths-2', paths, 'any names of 3 characters, two user dictionaries', args=dict(n=3, users=2)),
            case('kinds-any', kinds, 'any type of 5 characters', args=dict(letters=5, anything=True)),
            case('kinds-any-4', kinds, 'any type of 4 characters', args=dict(letters=4, anything=True)),
            case('places-2', places, 'two dictionaries from files anywhere', args=dict(histories=2)),
            case('providers-3', providers, 'three simple providers with any options', args=dict(n=3)),
            case('marks-3', marks, 'input plugins on a text of 3', args=dict(n=3)),
            case('class-text', classes, 'an input plugin class with any character anywhere', args=dict(key='inputTextPlugin', dom=S_ANY)),
            case('class-oov', classes, 'a provider class with any character anywhere', args=dict(key='oovProviderPlugin', dom=S_ANY)),
            case('class-path', classes, 'a joining class with any character anywhere', args=dict(key='pathRewritePlugin', dom=S_ANY)),
            case('class-longer', classes, 'a class with one character more', args=dict(key='oovProviderPlugin', dom=S_ANY, shorter=True)),
        ]
    return out


S_ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
