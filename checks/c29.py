"""C29: the build commands write the dictionary that the source files describe."""
import sys
import time

from common import (case, row, csv_text, number, matrix_text, full_matrix, system_bytes, build_system, build_user, dictionary, layout, simple, facts, command, Packages, Out,
                    POS, NUM, SYM, CATCH)

ASSUMPTIONS = ['the system clock shows a time from 1970 below 2^63 seconds', 'descriptions hold no NUL', 'what a build that is refused halfway leaves behind is not claimed']
REQUIRED = ['system dictionary', 'user dictionary', 'description', 'no description', 'output named', 'output by default', 'several files', 'one file', 'missing file refused',
            'nothing written', 'too long a description refused', 'system dictionary named', 'system dictionary by default', 'used', 'malformed refused', 'output overwritten']
SYSTEM2, USER3 = 0xce9f011a92394434, 0xca9811756ff64fb0
BASE = [row('m', cost=3), row('東', pos=NUM, cost=9, read='ヒガシ'), row('zz', left=-1, pos=CATCH)]


def run(S, argv):
    """The command in the scratch directory; the exit code."""
    kept = sys.stderr
    sys.stderr = Out()
    try:
        S.inside(lambda: command(S, argv))
    except SystemExit as e:
        return 0 if e.code is None else e.code
    finally:
        sys.stderr = kept
    return 0


def head(S, image, kind, text, start):
    """The first 272 octets."""
    H = S.load('sudachipy.dictionarylib.dictionaryheader').DictionaryHeader
    h = H.from_bytes(image, 0)
    S.check(h.version == kind, 'the file is of the current version of its kind')
    S.check(S.same(h.description, text), 'the description is kept')
    S.check(start - 1 <= h.create_time <= int(time.time()) + 1, 'the time of the build is kept')


def alike(S, kind, image, want, heads):
    """The same dictionary behind the header: equal up to the array of the
    trie, which finds the same words."""
    a, b = layout(image)['trie'], layout(want)['trie']
    S.check(a == b, 'the dictionary is that of the files in their order')
    S.check(S.same(image[272:a[0]], want[272:b[0]]), 'the dictionary is that of the files in their order')
    S.check(S.same(image[a[1]:], want[b[1]:]), 'the dictionary is that of the files in their order')
    B = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary
    read = B.from_system_dictionary if kind == SYSTEM2 else B.from_user_dictionary
    x, y = read(S.put('x.dic', image)).lexicon, read(S.put('y.dic', want)).lexicon
    for h in heads:
        t = (h + 'い').encode('utf-8')
        S.check(list(x.lookup(t, 0)) == list(y.lookup(t, 0)), 'the words of every file are found')


def sources(S, parts):
    """The rows in files: the names."""
    S.reach('several files' if len(parts) > 1 else 'one file')
    return [S.put('%s.csv' % ['z/m', 'a', 'm/z', 'b/b/d', 'k'][[x is p for x in parts].index(True)], csv_text(p)) for p in parts]


def given(S, texts):
    """-d: the arguments and the description."""
    d = S.choice('description', [None] + texts)
    S.reach('description' if d else 'no description')
    return ([], '') if d is None else (['-d', d], d)


def earlier(S, out):
    """Perhaps the output is there already, and longer."""
    if S.bool('there already'):
        S.put(out, bytes(range(256)) * 64)
        S.reach('output overwritten')


def shuffled(S, argv, files):
    """Options before or behind the files."""
    return argv + files if S.bool('options first') else files + argv


def system(S, parts, matrix, texts, name='out.dic'):
    """sudachipy build."""
    files = sources(S, parts)
    opts, d = given(S, texts)
    opts += ['-m', S.put('matrix.def', matrix)]
    out = name
    if S.bool('output named'):
        S.reach('output named')
        opts += ['-o', S.path(name)]
    else:
        S.reach('output by default')
        out = 'system.dic'
    earlier(S, out)
    start = int(time.time())
    code = run(S, ['build'] + shuffled(S, opts, files))
    S.check(code == 0, 'a build from valid sources succeeds')
    image = S.get(out)
    head(S, image, SYSTEM2, d, start)
    want = S.get(build_system(S, [r for p in parts for r in p], matrix, 'want.dic'))
    alike(S, SYSTEM2, image, want, [r[0] for p in parts for r in p])
    S.reach('system dictionary')
    return out


def user(S, parts, texts, default=False):
    """sudachipy ubuild."""
    files = sources(S, parts)
    opts, d = given(S, texts)
    with Packages(S, ['core']) as pack:
        base = system_bytes(S, BASE, full_matrix(1))
        if default:
            S.put('site/sudachidict_core/resources/system.dic', base)
            S.put('base.dic', base)
            S.reach('system dictionary by default')
        else:
            S.put('site/sudachidict_core/resources/system.dic', system_bytes(S, BASE[::-1], full_matrix(1)))
            opts += ['-s', S.put('base.dic', base)]
            S.reach('system dictionary named')
        out = 'out.dic'
        if S.bool('output named'):
            S.reach('output named')
            opts += ['-o', S.path(out)]
        else:
            S.reach('output by default')
            out = 'user.dic'
        earlier(S, out)
        start = int(time.time())
        code = run(S, ['ubuild'] + shuffled(S, opts, files))
    S.check(code == 0, 'a build from valid sources succeeds')
    image = S.get(out)
    head(S, image, USER3, d, start)
    want = S.get(build_user(S, [r for p in parts for r in p], S.path('base.dic'), 'want.dic'))
    alike(S, USER3, image, want, [r[0] for p in parts for r in p])
    S.reach('user dictionary')
    return out


def contents(S, n, dom, kind, default=False):
    """Words with any strings and numbers in two files."""
    a = row('か', surface=S.text('s', n, dom), read=S.text('r', n, dom), norm='ん', syn=S.text('g', 2, '0123456789'))
    b = row('き', norm=S.text('n', n, dom), cost=number(S, 'c', 4, True)[0], left=number(S, 'l', 2)[0])
    c = row('く', pos=SYM, a='0/1' if kind == 'system' else 'U0/U1', dform='1')
    parts = [[a], [b, c]] if S.bool('split') else [[a, b], [c]]
    if kind == 'system':
        x, y = number(S, 'x', 4, True), number(S, 'y', 3)
        system(S, parts, '2 1\n0 0 %s\n1 0 %s\n' % (x[0], y[0]), ['説明'])
    else:
        user(S, parts, ['説明'], default)


WORDS = [row('a', cost=1), row('b', pos=SYM, b='0/0'), row('か', norm='カ', read='', cost=-5), row('a', cost=7, pos=NUM, dform='0')]
LATER = row('き', a='い,名詞,普通名詞,一般,*,*,*,い/か,名詞,普通名詞,一般,*,*,*,', cost=2)


def any_files(S, kind, n):
    """Any n rows in any files in any order; a later row may be named by an earlier one."""
    pool = list(WORDS)
    rows = [LATER, row('い')]
    for k in range(n):
        rows.append(S.choice('row%d' % k, pool))
    rows.append(row('か', read=''))
    if kind == 'user':
        rows = [r[:16] + ['*' if r[16] == '*' else 'U0/U0'] + r[17:] for r in rows]
    cut = S.int('cut', 1, len(rows) - 1)
    cut = S.concrete(cut)
    parts = [rows[:cut], rows[cut:]]
    if S.bool('swapped'):
        parts = parts[::-1]
    more = S.choice('more', ['none', 'third', 'again'])
    if more != 'none':
        parts.append([row('ん')] if more == 'third' else parts[0])
    if kind == 'system':
        system(S, parts, full_matrix(1, 4), [])
    else:
        user(S, parts, [])


def described(S, kind):
    """Descriptions of any kind."""
    texts = ['', 'x', 'a b', '説明', '𠮷', 'x' * 256, 'あ' * 85 + 'x', ' x', 'x=-m']
    if kind == 'system':
        system(S, [[row('a')]], full_matrix(1), texts)
    else:
        user(S, [[row('a')]], texts)


def refused(S, kind, what, old):
    """Something that is missing."""
    before = b'kept'
    if old:
        S.put('out.dic', before)
    a = S.put('a.csv', csv_text([row('a')]))
    b = S.put('b.csv', csv_text([row('b')]))
    none = S.path('none')
    files = [a, b]
    m = S.put('matrix.def', full_matrix(1))
    s = S.put('base.dic', system_bytes(S, BASE, full_matrix(1)))
    opts = ['-o', S.path('out.dic')]
    if what == 'file':
        files[S.choice('which', [0, 1])] = none
    elif what == 'matrix':
        m = none
    elif what == 'system':
        s = none
    elif what == 'no matrix':
        m = None
    elif what == 'no files':
        files = []
    with Packages(S, []):
        if kind == 'build':
            opts += ['-m', m] if m else []
        else:
            opts += ['-s', s]
        code = run(S, [kind] + opts + files)
    S.check(code not in (0, None), 'a build without its sources is refused')
    S.reach('missing file refused')
    if old:
        S.check(S.get('out.dic') == before, 'a refused build leaves the old dictionary as it was')
    else:
        S.check(not S.exists('out.dic'), 'a refused build writes nothing')
        S.reach('nothing written')


def long(S, kind):
    """Descriptions that do not fit."""
    d = S.choice('description', ['x' * 257, 'あ' * 86, 'x' * 255 + 'é'])
    a = S.put('a.csv', csv_text([row('a')]))
    opts = ['-m', S.put('matrix.def', full_matrix(1))] if kind == 'build' else ['-s', S.put('base.dic', system_bytes(S, BASE, full_matrix(1)))]
    try:
        code = run(S, [kind, '-d', d, '-o', S.path('out.dic')] + opts + [a])
    except Exception as e:
        code = 1
        S.observe('error', type(e).__name__)
    S.check(code != 0, 'a description that does not fit is refused')
    S.reach('too long a description refused')


def malformed(S, kind):
    """A file with a row that is refused, at any place."""
    parts = [[row('a'), row('b')], [row('c'), row('d')]]
    i, j = S.choice('file', [0, 1]), S.choice('row', [0, 1])
    bad = S.choice('bad', ['short', 'cost', 'unit', 'empty'])
    r = list(parts[i][j])
    if bad == 'short':
        r = r[:17]
    elif bad == 'cost':
        r[3] = 'x'
    elif bad == 'unit':
        r[15] = '9/9'
    else:
        r[0] = ''
    parts[i][j] = r
    files = sources(S, parts)
    opts = ['-m', S.put('matrix.def', full_matrix(1))] if kind == 'build' else ['-s', S.put('base.dic', system_bytes(S, BASE, full_matrix(1)))]
    try:
        code = run(S, [kind, '-o', S.path('out.dic')] + opts + files)
    except Exception as e:
        code = 1
        S.observe('error', type(e).__name__)
    S.check(code != 0, 'a build from a malformed source is refused')
    S.reach('malformed refused')


def used(S, pieces, n):
    """A text analysed with what the commands built."""
    mat = S.put('matrix.def', full_matrix(1))
    sfiles = [S.put('s0.csv', csv_text([row('東', cost=100, read='ヒガシ'), row('京', cost=100)])), S.put('s1.csv', csv_text([row('東京', cost=50, a='0/1'), row('zz', left=-1, pos=CATCH)]))]
    ufiles = [S.put('u0.csv', csv_text([row('は', cost=100, pos=['名詞', '新', '*', '*', '*', '*'], syn='5')])), S.put('u1.csv', csv_text([row('京', cost=1, norm='キョウ', dform='0')]))]
    S.check(run(S, ['build', '-o', S.path('s.dic'), '-m', mat] + sfiles) == 0, 'a build from valid sources succeeds')
    S.check(run(S, ['ubuild', '-o', S.path('u.dic'), '-s', S.path('s.dic')] + ufiles) == 0, 'a build from valid sources succeeds')
    t = ''
    for k in range(n):
        t += S.choice('piece%d' % k, pieces)
    got = [facts(m) for m in dictionary(S, system='s.dic', users=('u.dic',), oov=(simple(0, 0, 3000),)).create().tokenize(t)]
    known = {'東': (POS, '東', 'ヒガシ', 0, []), '京': (POS, 'キョウ', '京', 1, []), 'は': (['名詞', '新', '*', '*', '*', '*'], 'は', 'は', 1, [5]), '東京': (POS, '東京', '東京', 0, [])}
    at = 0
    want = []
    while at < len(t):
        w = t[at:at + 2] if t[at:at + 2] == '東京' else t[at]
        want.append((at, at + len(w), w) + (known[w] if w in known else (CATCH, w, '', -1, [])))
        at += len(w)
    S.check(len(got) == len(want), 'the built dictionaries are used as described')
    for g, w in zip(got, want):
        S.check((g[0], g[1], g[2], list(g[3]), g[6], g[7], g[10], list(g[11])) == w, 'the built dictionaries are used as described')
    S.reach('used')


KANA = ((0x3041, 0x3096), (0x10000, 0x10FFFF))


def cases(tier):
    q = tier == 'quick'
    out = [
        case('system', contents, 'a system dictionary from two files with any strings of 1 character, numbers and connection costs', args=dict(n=1, dom=KANA, kind='system')),
        case('user', contents, 'a user dictionary from two files with any strings of 1 character and numbers', args=dict(n=1, dom=KANA, kind='user')),
        case('user-default', contents, 'the same with the installed system dictionary', args=dict(n=1, dom='あ𠮷', kind='user', default=True)),
        case('files-system', any_files, 'two or three files of 4 rows, one of them any of 4, perhaps a file twice', args=dict(kind='system', n=1)),
        case('files-user', any_files, 'two or three files of 4 rows, one of them any of 4, perhaps a file twice', args=dict(kind='user', n=1)),
        case('described-system', described, 'nine descriptions', args=dict(kind='system')),
        case('described-user', described, 'nine descriptions', args=dict(kind='user')),
        case('used', used, 'any two of 5 pieces', args=dict(pieces=['東', '京', '東京', 'は', '!'], n=2)),
    ]
    for kind in ('build', 'ubuild'):
        out += [case('long-' + kind, long, 'three descriptions', args=dict(kind=kind)), case('malformed-' + kind, malformed, 'four kinds of malformed rows in any of 4 places', args=dict(kind=kind))]
        for what in ('file', 'matrix' if kind == 'build' else 'system', 'no files') + (('no matrix',) if kind == 'build' else ()):
            for old in (False, True):
                out.append(case('refused-%s-%s%s' % (kind, what.replace(' ', '-'), '-old' if old else ''), refused, 'a missing source', args=dict(kind=kind, what=what, old=old)))
    if not q:
        out += [
            case('system-2', contents, 'a system dictionary from two files with any strings of 2 characters, numbers and connection costs', args=dict(n=2, dom=KANA, kind='system')),
            case('user-2', contents, 'a user dictionary from two files with any strings of 2 characters and numbers', args=dict(n=2, dom=KANA, kind='user')),
            case('files-system-3', any_files, 'two or three files of 6 rows, three of them any of 4', args=dict(kind='system', n=3)),
            case('files-user-3', any_files, 'two or three files of 6 rows, three of them any of 4', args=dict(kind='user', n=3)),
            case('used-3', used, 'any three of 5 pieces', args=dict(pieces=['東', '京', '東京', 'は', '!'], n=3)),
        ]
    return out
