"""C26: the command prints one line per morpheme and EOS per line."""
from common import (case, row, dictionary, system_bytes, user_bytes, build_system, full_matrix, modes, simple, world, CATCH, NORMALIZE, NUMJOIN, KATAJOIN, POS, NUM,
                    SYM, WORLD, SIMPLE, MECAB, PROLONGED, WORLD_CHARDEF, UNK, CHARDEF, Packages, TYPES, command)

ASSUMPTIONS = ['the text is valid UTF-8', 'a carriage return is part of a line break', 'the format of the debug dump is not claimed']
REQUIRED = ['dictionary word', 'user word', 'unknown word', 'empty line', 'no final newline', 'two files', 'standard input', 'standard output', 'all fields', 'mode A',
            'mode B', 'debug', 'blank kept', 'several synonyms', 'no synonyms',
            'subcommand named', 'dictionary type given', 'dictionary of the settings', 'version']

ROWS = [
    row('東', cost=100, read='ヒガシ', syn='1/7'), row('京都', cost=100, read='キョウト', norm='京師', a='2/3', b='2/3', pos=POS, syn='12'),
    row('京', cost=5000, read='キョウ', norm='けい', dform='3'), row('都', cost=5000, read='ト', pos=SYM, syn='5/6/7'),
    row('1', cost=100, pos=NUM, read='いち'), row('2', cost=100, pos=NUM, read='に', syn='3'), row('東京', cost=50, b='0/2', a='*', read='x'),
    row('zz', left=-1, pos=CATCH),
]
OWN = ['名詞', '固有名詞', '私', '*', '*', '*']
USER = [row('y', cost=100, pos=OWN, read='ワイ', norm='Y', syn='44'), row('qz', cost=100, pos=POS, a='U2/U3', b='U2/U3', dform='0', read='キューゼット'),
        row('q', cost=5000, pos=OWN, syn='9'), row('z', cost=5000, pos=NUM, norm='Z')]
PIECES = ['', '東', '京都', '東京', 'y', 'qz', '!', '12', ' ', '\t', '\u3000', 'Ａ']


def printed(S, tok, line, mode, every):
    """The lines that are to be printed for a line."""
    out = []
    for m in tok.tokenize(line, modes(S)[mode]):
        f = [m.surface(), ','.join(m.part_of_speech()), m.normalized_form()]
        if every:
            ids = m.synonym_group_ids()
            f += [m.dictionary_form(), m.reading_form(), '%d' % m.dictionary_id(), '[' + ','.join(['%d' % k for k in ids]) + ']']
            S.reach('all fields')
            S.reach('several synonyms' if len(ids) > 1 else 'one synonym' if ids else 'no synonyms')
            if m.is_oov():
                f.append('(OOV)')
        S.reach('unknown word' if m.is_oov() else 'user word' if m.dictionary_id() > 0 else 'dictionary word')
        out.append('\t'.join(f))
    if not out:
        S.reach('empty line')
    return out + ['EOS']


def broken(S, text):
    """The lines of an output."""
    out = []
    last = ''
    for c in text:
        if c == '\n':
            out.append(last)
            last = ''
        else:
            last += c
    S.check(last == '', 'every printed line is ended')
    return out


def compare(S, got, wants, debug):
    if not debug:
        want = [x for w in wants for x in w]
        S.check(len(got) == len(want), 'one line per morpheme and EOS per line')
        for a, b in zip(got, want):
            S.check(S.same(a, b), 'a line has the fields of its morpheme')
        return
    S.reach('debug')
    at = 0
    for w in wants:
        while at + len(w) <= len(got) and not S.same(got[at:at + len(w)], w):
            at += 1
        S.check(at + len(w) <= len(got), 'the debug option changes no line')
        at += len(w)
    S.check(at == len(got), 'the debug option changes no line')


def both(S, make, lines, mode, every, debug, out, files, final=True):
    """The command on the lines (a list per file) against a tokenizer that is
    made anew for every line."""
    argv = []
    if mode != 'C' or S.bool('mode given'):
        argv += ['-m', mode]
    if mode != 'C':
        S.reach('mode ' + mode)
    argv += ['-a'] if every else []
    argv += ['-d'] if debug else []
    argv += ['-r', S.path('sudachi.json')]
    wants = []
    d = make()
    for f in lines:
        for line in f:
            wants.append(printed(S, d.create(), line, mode, every))
            if S.codes(line)[:1] in ([32], [9], [0x3000]) or S.codes(line)[-1:] in ([32], [9], [0x3000]):
                S.reach('blank kept')
    texts = ['\n'.join(f) + ('\n' if final and f else '') for f in lines]
    if not final:
        S.reach('no final newline')
    if out:
        argv += ['-o', S.path('out.txt')]
        S.put('out.txt', 'earlier\n' * 50)
    stdin = []
    if files:
        for k, t in enumerate(texts):
            argv.append(S.put('in%d.txt' % k, t))
        if len(texts) > 1:
            S.reach('two files')
    else:
        f = lines[0]
        stdin = [x + '\n' for x in f[:-1]] + [x + ('\n' if final else '') for x in f[-1:]]
        S.reach('standard input')
    shown = command(S, argv, stdin)
    if out:
        S.check(shown == '', 'with an output file nothing is shown')
        shown = S.get('out.txt').decode('utf-8')
    else:
        S.reach('standard output')
    compare(S, broken(S, shown), wants, debug)


def small(S, text=(NORMALIZE,)):
    S.put('system.dic', system_bytes(S, ROWS, full_matrix(1)))
    S.put('user.dic', user_bytes(S, USER, ROWS, full_matrix(1)))
    return dictionary(S, oov=(simple(0, 0, 3000),), text=text, path=(NUMJOIN,), users=('user.dic',), chardef='DEFAULT 0 1 0\n0x0030..0x0039 NUMERIC\n')


def options(S, shape, pieces, debug=None, out=None, files=None, every=None):
    """Lines of any pieces with any options."""
    lines = []
    k = 0
    for f in shape:
        one = []
        for n in f:
            t = ''
            for _ in range(n):
                t += S.choice('piece%d' % k, pieces)
                k += 1
            one.append(t)
        lines.append(one)
    files = (len(lines) > 1 or S.bool('files')) if files is None else files
    mode = S.choice('mode', ['A', 'B', 'C'])
    final = S.bool('final newline')
    if not final:
        for f in lines:
            S.assume(f[-1] != '')
    both(S, lambda: small(S), lines, mode, S.bool('all fields') if every is None else every, S.bool('debug') if debug is None else debug,
         S.bool('output file') if out is None else out, files, final)


def any_line(S, shape, dom, debug=False, every=True, mode='C', text=()):
    """Lines of any characters."""
    lines = [[S.text('line%d' % k, n, dom) for k, n in enumerate(shape)]]
    if debug:
        for l in lines[0]:
            for c in S.codes(l):
                S.assume(c != 61)
    both(S, lambda: small(S, text), lines, mode, every, debug, False, True)


def any_world(S, n, dom, debug=False, mode='C'):
    """A line of any characters with every plugin."""
    lines = [[S.text('line', n, dom), '東京都']]
    both(S, lambda: world(S), lines, mode, True, debug, False, True)


def contents(S, norm, read, digits, dom, lines=('いあ',), twice=False):
    """Entries with any strings and numbers."""
    rows = []
    for k, w in enumerate(['あ', 'い']):
        n = S.text('norm%d' % k, norm, dom)
        r = S.text('read%d' % k, read, dom)
        x = row(w, cost=10, norm=n, read=r, syn=S.text('syn%d' % k, digits, '123456789') + ('/8' if k else ''))
        if twice:       # a group that is there twice
            x[18] = '7/' + x[18] + '/7'
        x[7] = S.text('pos%d' % k, 1, dom)
        rows.append(x)
    path = build_system(S, rows, full_matrix(1), 'own.dic')
    text = '\n'.join(lines) + '\n'
    d = dictionary(S, system=path, oov=(dict(SIMPLE, oovPOS=rows[0][5:11]),), chardef='DEFAULT 0 1 0\n')
    every = S.bool('all fields')
    got = broken(S, command(S, ['-r', S.path('sudachi.json')] + (['-a'] if every else []) + [S.put('in.txt', text)]))
    want = []
    for l in lines:
        for c in l:
            k = {'あ': 0, 'い': 1}.get(c)
            if k is None:
                x = [c, ','.join(rows[0][5:11]), c] + ([c, '', '-1', '[]', '(OOV)'] if every else [])
            else:
                r = rows[k]
                x = [c, ','.join(r[5:11]), r[12]] + ([c, r[11], '0', '[' + r[18].replace('/', ',') + ']'] if every else [])
            want.append('\t'.join(x))
        want.append('EOS')
    S.check(len(got) == len(want), 'one line per morpheme and EOS per line')
    for a, b in zip(got, want):
        S.check(S.same(a, b), 'a line has the fields of its morpheme')


def refused(S):
    """A file that does not exist."""
    small(S)
    a = S.put('in0.txt', '東\n')
    missing = S.bool('first')
    try:
        out = command(S, ['-r', S.path('sudachi.json')] + ([S.path('none.txt'), a] if missing else [a, S.path('none.txt')]))
    except SystemExit as e:
        S.check(e.code not in (0, None), 'a missing file is refused')
        S.reach('refused')
        return
    S.fail('a missing file is refused')


def typed(S):
    """The subcommand named or not, a dictionary type or none, the options in
    any order."""
    with Packages(S, TYPES):
        for k, t in enumerate(TYPES + ['own']):
            rows = [row('あ', cost=10, norm=t), row('い', cost=10, norm='b'), row('あい', cost=-100 * k, norm='-' + t, a='0/1', b='0/1' if k % 2 else '*'), row('zz', left=-1, pos=CATCH)]
            S.put('own.dic' if t == 'own' else 'site/sudachidict_' + t + '/resources/system.dic', system_bytes(S, rows, full_matrix(1)))
        dictionary(S, system='own.dic', oov=(simple(0, 0, 3000),), chardef='DEFAULT 0 1 0\n')
        t = S.choice('type', [None] + TYPES)
        mode = S.choice('mode', ['A', 'B', 'C'])
        opts = [['-r', S.path('sudachi.json')], ['-m', mode], [] if t is None else ['-s', t], [S.put('in.txt', 'あい\nい\n')]]
        S.reach('dictionary of the settings' if t is None else 'dictionary type given')
        order = S.choice('order', [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)])
        argv = [x for k in order for x in opts[k]]
        if S.bool('subcommand'):
            S.reach('subcommand named')
            argv = ['tokenize'] + argv
        got = broken(S, command(S, argv))
    p = ','.join(POS)
    u = t or 'own'
    whole = mode == 'C' or mode == 'B' and u in ('small', 'full')
    one = ['あい\t' + p + '\t-' + u] if whole else ['あ\t' + p + '\t' + u, 'い\t' + p + '\tb']
    S.check(S.same(got, one + ['EOS', 'い\t' + p + '\tb', 'EOS']), 'the options have the effect of the same arguments of the interface')


def version(S):
    """The version, and nothing else."""
    argv = ['tokenize'] if S.bool('subcommand') else []
    argv += S.choice('order', [['-v'], ['--version'], ['-a', '-v', S.path('none.txt')]])
    got = broken(S, command(S, argv, ['あ\n']))
    S.check(S.same(got, ['sudachipy ' + S.load('sudachipy').__version__]), 'the version is printed')
    S.reach('version')


KANA = ((0x3041, 0x3096), (0x4E00, 0x9FFF))
LINE = ((1, 9), (11, 12), (14, 0xD7FF), (0xE000, 0x10FFFF))


def cases(tier):
    q = tier == 'quick'
    out = [
        case('one', options, 'a line of any of 6 pieces, every option', args=dict(shape=[[1]], pieces=['', '京都', 'qz', '!', '12', '\u3000'])),
        case('three', options, 'three lines of any of 3 pieces', args=dict(shape=[[1, 1, 1]], pieces=['', '京都', '\t'], debug=False, out=False, files=True, every=True)),
        case('files', options, 'two files of any of 3 pieces', args=dict(shape=[[1], [1, 1]], pieces=['', '東', '!'], debug=False, out=False, every=False)),
        case('debug', options, 'two lines of any of 3 pieces with the debug option', args=dict(shape=[[1, 1]], pieces=['京都', 'qz', ''], debug=True, out=False, files=True)),
        case('any-1', any_line, 'lines of 1 character, any', args=dict(shape=(1, 1), dom=LINE)),
        case('any-debug', any_line, 'a line of any character with the debug option', args=dict(shape=(1,), dom=LINE, debug=True)),
        case('any-normal', any_line, 'a line of any character of the BMP below U+3400, normalized', args=dict(shape=(1,), dom=((32, 0x33FF),), text=(NORMALIZE,))),
        case('twice', contents, 'two words with a synonym group twice', args=dict(norm=1, read=1, digits=1, dom='か', lines=('いあ',), twice=True)),
        case('contents', contents, 'two words with any strings', args=dict(norm=1, read=2, digits=2, dom=KANA, lines=('いあ', '', 'あう'))),
        case('refused', refused, 'a missing file'),
        case('typed', typed, 'any dictionary type and mode, options in any order'),
        case('version', version, 'the version option'),
    ]
    if not q:
        out += [
            case('one-any', options, 'a line of any piece, every option', args=dict(shape=[[1]], pieces=PIECES)),
            case('files-any', options, 'two files of any of 3 pieces, every option', args=dict(shape=[[1], [1, 1]], pieces=['', '東', '!'], debug=False)),
            case('world-1', any_world, 'a line of any character, every plugin', args=dict(n=1, dom=LINE)),
            case('any-2', any_line, 'lines of 1 and 2 characters, any', args=dict(shape=(1, 2), dom=LINE)),
            case('two', options, 'a line of any two pieces, every option', args=dict(shape=[[2]], pieces=PIECES, out=False, files=True)),
            case('pairs', options, 'two lines of any pieces', args=dict(shape=[[1, 1]], pieces=PIECES, out=False, files=True, debug=False)),
            case('any-3', any_line, 'a line of 3 characters, any', args=dict(shape=(3,), dom=LINE)),
            case('any-2-2', any_line, 'lines of 2 and 1 characters below U+0800', args=dict(shape=(2, 1), dom=((1, 9), (11, 12), (14, 0x7FF)), mode='A')),
            case('any-debug-2', any_line, 'a line of 2 characters with the debug option', args=dict(shape=(2,), dom=LINE, debug=True)),
            case('world-2', any_world, 'a line of 2 characters (ASCII, kana), every plugin', args=dict(n=2, dom=((32, 126), (0x3041, 0x30FF)))),
            case('world-a', any_world, 'a line of 2 characters (kana, ideographs), every plugin, mode A', args=dict(n=2, dom=((0x30A1, 0x30FF), (0x4E00, 0x9FFF)), mode='A')),
            case('contents-any', contents, 'two words with any strings', args=dict(norm=2, read=1, digits=3, dom=((0x3041, 0x3096), (0x10000, 0x10FFFF)))),
        ]
    return out
