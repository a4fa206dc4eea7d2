"""Shared by the harnesses (instrumented in symbolic mode, plain in replays)."""
import importlib.machinery
import sys
import types


def case(name, fn, bound, **kw):
    c = {'name': name, 'fn': fn, 'bound': bound, 'args': kw.pop('args', {})}
    c.update(kw)
    return c


class Grammar:
    """Stand-in for the grammar: categories of a code point by a function."""

    def __init__(self, types):
        self._types = types

    def get_character_category(self):
        return self

    def get_category_types(self, code_point):
        return self._types(code_point)


# ------------------------------------------------------------ any text --
ONE = {1: ((0, 0x7F),), 2: ((0x80, 0x7FF),), 3: ((0x800, 0xD7FF), (0xE000, 0xFFFF)), 4: ((0x10000, 0x10FFFF),)}


def any_text(S, n, widths, cats, equal=None, grammar=None):
    """A text of n characters, each with any set of categories: the input, the
    text, the sets, the categories, the enum."""
    m = S.load('sudachipy.utf8inputtextbuilder')
    C = S.load('sudachipy.dictionarylib.categorytype').CategoryType
    cats = [getattr(C, c) for c in cats]
    chars = []
    for i in range(n):
        w = S.choice('w%d' % i, widths)
        if equal is not None and i == equal[1]:
            chars.append(chars[equal[0]])
            continue
        c = S.char('c%d' % i, ONE[w])
        for j, d in enumerate(chars):
            S.assume(c != d)
        chars.append(c)
    sets = []
    for i in range(n):
        if equal is not None and i == equal[1]:
            sets.append(sets[equal[0]])
            continue
        s = S.subset('cat%d' % i, cats)
        S.assume(S.or_(*[c in s for c in cats]))
        sets.append(s)

    def lookup(cp):
        for i in range(n):
            if cp == S.codes(chars[i])[0]:
                return own[i]
        return set()
    own = list(sets)                         # what the code is given
    sets = [s.copy() for s in sets]          # what is compared with
    text = ''
    for c in chars:
        text += c
    inp = m.UTF8InputTextBuilder(text, (grammar or Grammar)(lookup)).build()
    return inp, text, sets, cats, C


def starts(text):
    """First byte of every character, and the length."""
    out = [0]
    for c in text:
        out.append(out[-1] + len(c.encode('utf-8')))
    return out


def runs_of(S, sets, cats):
    """For every character, where its run of characters that share a category
    ends (runs are delimited from the start of the text)."""
    runs = []
    i = 0
    n = len(sets)
    while i < n:
        shared = [c in sets[i] for c in cats]
        j = i + 1
        while j < n:
            nxt = [S.and_(a, c in sets[j]) for a, c in zip(shared, cats)]
            if not S.or_(*nxt):
                break
            shared = nxt
            j += 1
        for k in range(i, j):
            runs.append(j)
        i = j
    return runs


def word_starts(S, sets, cats, C):
    """For every character, whether a word may start there."""
    bow = []
    for i in range(len(sets)):
        if i == 0:
            bow.append(True)
            continue
        letter = S.or_(C.ALPHA in sets[i], C.GREEK in sets[i], C.CYRILLIC in sets[i])
        share = S.or_(*[S.and_(c in sets[i], c in sets[i - 1]) for c in cats])
        bow.append(S.not_(S.and_(letter, share)))
    return bow


# ------------------------------------------------------------ dictionaries --
POS = ['名詞', '普通名詞', '一般', '*', '*', '*']
NUM = ['名詞', '数詞', '*', '*', '*', '*']
SYM = ['補助記号', '一般', '*', '*', '*', '*']

CHARDEF = '''DEFAULT 0 1 0
NUMERIC 1 1 0
ALPHA 1 1 0
KATAKANA 1 1 2
KANJINUMERIC 1 1 0
KANJI 0 0 2
0x0020 SPACE
0x0021..0x002F SYMBOL
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x00C0..0x00FF ALPHA
0x0300..0x036F NOOOVBOW
0x03B1..0x03C9 GREEK
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC KATAKANA NOOOVBOW
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC KANJI
0x4E8C KANJINUMERIC KANJI
0x4E09 KANJINUMERIC KANJI
0x5341 KANJINUMERIC KANJI
0x767E KANJINUMERIC KANJI
0x5343 KANJINUMERIC KANJI
0x4E07 KANJINUMERIC KANJI
0x20000..0x2FFFF KANJI
'''


def row(head, left=0, right=0, cost=0, surface=None, pos=POS, read=None, norm=None, dform='*', mode='C',
        a='*', b='*', c='*', syn='*'):
    """A row of a lexicon source."""
    surface = head if surface is None else surface
    return [head, str(left), str(right), str(cost), surface] + list(pos) + [
        surface if read is None else read, surface if norm is None else norm, dform, mode, a, b, c, syn]


def number(S, name, digits, neg=False):
    """A number of so many digits: (its text, its value)."""
    t = S.text(name, digits, '0123456789')
    v = 0
    for c in S.codes(t):
        v = v * 10 + (c - 48)
    if neg:
        return '-' + t, -v
    return t, v


def csv_text(rows):
    out = ''
    for r in rows:
        out += ','.join(['"%s"' % c if ',' in c or '"' in c else c for c in r]) + '\n'
    return out


def matrix_text(left, right, cells=()):
    """Cells are (left, right, cost)."""
    return '%d %d\n' % (left, right) + ''.join('%d %d %d\n' % c for c in cells)


def full_matrix(n, cost=0):
    return matrix_text(n, n, [(i, j, cost) for i in range(n) for j in range(n)])


def quiet(S):
    g = S.load('logging').getLogger('quiet')
    g.setLevel(100)
    return g


def header(S, kind, text='', time=0):
    V = S.load('sudachipy.dictionarylib.dictionaryversion')
    H = S.load('sudachipy.dictionarylib.dictionaryheader').DictionaryHeader
    return H(getattr(V, kind), time, text).to_bytes()


def build_system(S, rows, matrix, name, kind='SYSTEM_DICT_VERSION_2'):
    """Build a system dictionary file with the builder of the package."""
    B = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder
    src = S.put(name + '.csv', csv_text(rows))
    out = S.open(S.path(name), 'wb')
    out.write(header(S, kind))
    B(logger=quiet(S)).build([src], S.stream(matrix), out)
    out.close()
    return S.path(name)


def build_user(S, rows, system, name, kind='USER_DICT_VERSION_3'):
    """Build a user dictionary file against the system dictionary file."""
    D = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary.from_system_dictionary(system)
    U = S.load('sudachipy.dictionarylib.userdictionarybuilder').UserDictionaryBuilder
    src = S.put(name + '.csv', csv_text(rows))
    out = S.open(S.path(name), 'wb')
    out.write(header(S, kind))
    U(D.grammar, D.lexicon, logger=quiet(S)).build([src], None, out)
    out.close()
    return S.path(name)


def freeze(rows):
    return tuple(tuple(r) for r in rows)


def system_bytes(S, rows, matrix):
    """The same from constants, as bytes."""
    return S.memo(('system', freeze(rows), matrix),
                  lambda: S.get(build_system(S, rows, matrix, 'memo_system.dic')))


def user_bytes(S, rows, system_rows, matrix):
    def make():
        p = S.put('memo_base.dic', system_bytes(S, system_rows, matrix))
        return S.get(build_user(S, rows, p, 'memo_user.dic'))
    return S.memo(('user', freeze(rows), freeze(system_rows), matrix), make)


def layout(image):
    """Where the connection matrix and the word parameters begin in a
    dictionary image (the binary format of Sudachi dictionaries)."""
    def num(at, n, signed=False):
        return int.from_bytes(image[at:at + n], 'little', signed=signed)
    at = 272
    npos = num(at, 2)
    at += 2
    for _ in range(6 * npos):
        n = image[at]
        at += 1
        if n >= 128:
            n = ((n & 0x7F) << 8) | image[at]
            at += 1
        at += 2 * n
    left, right = num(at, 2), num(at + 2, 2)
    matrix = at + 4
    at = matrix + 2 * left * right
    trie = at + 4, at + 4 + 4 * num(at, 4)
    at = trie[1]
    at += 4 + num(at, 4)
    return {'trie': trie, 'matrix': matrix, 'left': left, 'right': right, 'words': num(at, 4), 'params': at + 4}


def without_grammar(image):
    """The same file without its part-of-speech table and matrix."""
    lay = layout(image)
    cut = lay['matrix'] + 2 * lay['left'] * lay['right'] - 272
    at = lay['params'] + 6 * lay['words']
    end = at + 4 * lay['words']
    # where each word is described
    places = b''.join((int.from_bytes(image[k:k + 4], 'little') - cut).to_bytes(4, 'little') for k in range(at, end, 4))
    return image[:272] + image[272 + cut:at] + places + image[end:]


def patched(image, cells):
    """The image with 16-bit numbers at the given places."""
    out = b''
    last = 0
    for at in sorted(cells):
        out = out + image[last:at] + cells[at].to_bytes(2, 'little', signed=True)
        last = at + 2
    return out + image[last:]


def param_at(lay, word, k):
    """Place of left id (0), right id (1) or cost (2) of a word."""
    return lay['params'] + 6 * word + 2 * k


def info_at(image, lay, word):
    """Where the part of speech and the first list of units of a word begin."""
    def skip(at):
        n = image[at]
        at += 1
        if n >= 128:
            n = ((n & 0x7F) << 8) | image[at]
            at += 1
        return at, n
    k = lay['params'] + 6 * lay['words'] + 4 * word
    at, n = skip(int.from_bytes(image[k:k + 4], 'little'))
    at, _ = skip(at + 2 * n)
    pos = at
    at, n = skip(at + 2)
    at, n = skip(at + 2 * n + 4)
    return pos, at + 2 * n


def cell_at(lay, left, right):
    """Place of the cost between right id `left` of the left word and left id
    `right` of the right word."""
    return lay['matrix'] + 2 * (left + lay['left'] * right)


SIMPLE = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': POS, 'leftId': 0, 'rightId': 0, 'cost': 3000}
MECAB = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}
NORMALIZE = {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}
PROLONGED = {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin',
             'prolongedSoundMarks': ['ー', '-', '〜'], 'replacementSymbol': 'ー'}
NUMJOIN = {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': True}
KATAJOIN = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': POS, 'minLength': 3}


def dictionary(S, system='system.dic', oov=(SIMPLE,), text=(), path=(), users=(), chardef=CHARDEF, unk=None, conf=None):
    """A Dictionary from a settings file."""
    if chardef is not None:
        S.put('char.def', chardef)
    if unk is not None:
        S.put('unk.def', unk)
    d = {'systemDict': system, 'characterDefinitionFile': 'char.def', 'oovProviderPlugin': list(oov)}
    if text:
        d['inputTextPlugin'] = list(text)
    if path:
        d['pathRewritePlugin'] = list(path)
    if users:
        d['userDict'] = list(users)
    d.update(conf or {})
    return S.load('sudachipy.dictionary').Dictionary(S.put('sudachi.json', d))


# A small world: words with units, numerals, katakana, symbols.
WORLD = [
    row('東', cost=100),                                   # 0
    row('京', cost=100),                                   # 1
    row('東京', cost=150, a='0/1', mode='B'),              # 2
    row('都', cost=120),                                   # 3
    row('東京都', cost=160, a='0/1/3', b='2/3'),           # 4
    row('a', cost=200, norm='エー', read='えー'),          # 5
    row('ab', cost=220),                                   # 6
    row('1', cost=90, pos=NUM),                            # 7
    row('2', cost=90, pos=NUM),                            # 8
    row('.', cost=300, pos=SYM),                           # 9
    row(',', cost=300, pos=SYM),                           # 10
    row('一', cost=90, pos=NUM),                           # 11
    row('千', cost=90, pos=NUM),                           # 12
    row('ア', cost=400),                                   # 13
    row('アイ', cost=380),                                 # 14
    row('メートル', cost=100, a='16/17'),                  # 15
    row('メー', cost=500),                                 # 16
    row('トル', cost=500),                                 # 17
    row('か', cost=350),                                   # 18
    row('が', cost=330),                                   # 19
    row('𠮷', cost=210),                                   # 20
    row('一千', cost=500, pos=NUM, a='11/12'),             # 21
]
UNK = '''ALPHA,0,0,1200,名詞,普通名詞,一般,*,*,*
KATAKANA,0,0,1500,名詞,普通名詞,一般,*,*,*
KANJI,0,0,1700,名詞,普通名詞,一般,*,*,*
NUMERIC,0,0,1600,名詞,数詞,*,*,*,*
DEFAULT,0,0,1900,補助記号,一般,*,*,*,*
'''
WORLD_CHARDEF = CHARDEF.replace('KATAKANA 1 1 2', 'KATAKANA 0 1 2')


def world(S, rows=None, oov=(MECAB, SIMPLE), text=(NORMALIZE, PROLONGED), path=(NUMJOIN, KATAJOIN), users=(), **kw):
    S.put('system.dic', system_bytes(S, rows or WORLD, full_matrix(1, 10)))
    kw.setdefault('chardef', WORLD_CHARDEF)
    kw.setdefault('unk', UNK)
    return dictionary(S, oov=oov, text=text, path=path, users=users, **kw)


def modes(S):
    T = S.load('sudachipy.tokenizer').Tokenizer
    return {'A': T.SplitMode.A, 'B': T.SplitMode.B, 'C': T.SplitMode.C}


class Choice:
    """Everything about the analysis of one text that the costs decide: the
    candidate words at every place, their ids and costs, and the matrix."""

    def __init__(self, S, n, cells):
        self.S = S
        self.cells = cells          # (right id of the left word, left id of the right word) -> cost
        self.at = [[] for _ in range(n)]
        self.n = n

    def add(self, begin, end, key, left, right, cost):
        self.at[begin].append((end, key, left, right, cost))

    def paths(self):
        """Every sequence of candidates that covers the text."""
        out = []
        todo = [(0, ())]
        while todo:
            at, done = todo.pop()
            if at == self.n:
                out.append(done)
                continue
            for c in self.at[at]:
                todo.append((c[0], done + (c,)))
        return out

    def cost(self, path):
        """(total cost, whether a connection is inhibited)"""
        S = self.S
        total = 0
        bad = False
        right = 0
        for end, key, l, r, c in path:
            k = self.cells[right, l]
            bad = S.or_(bad, k == 32767)
            total = total + k + c
            right = r
        k = self.cells[right, 0]
        return total + k, S.or_(bad, k == 32767)

    def find(self, morphemes):
        """The sequence of candidates that was returned ((begin, end, key)...)."""
        out = []
        at = 0
        for b, e, key in morphemes:
            if b != at:
                return None
            hit = [c for c in self.at[b] if c[0] == e and c[1] == key]
            if len(hit) != 1:
                return None
            out.append(hit[0])
            at = e
        return tuple(out) if at == self.n else None


# ---------------------------------------------------------------- numerals --
DIGITS = '0123456789'
KANJI = '〇一二三四五六七八九'
SMALL = {'十': 1, '百': 2, '千': 3}
LARGE = {'万': 4, '億': 8, '兆': 12}


def draw(S, name, kinds):
    """(text of one character, kind, value): the value of a digit is symbolic."""
    k = S.choice(name + '.kind', kinds)
    if k == 'a':
        v = S.int(name, 0, 9)
        t = S.ite(v == 9, '9', '9')
        for i in range(9):
            t = S.ite(v == i, DIGITS[i], t)
        return t, 'd', v
    if k == 'k':
        v = S.int(name, 0, 9)
        t = KANJI[9]
        for i in range(9):
            t = S.ite(v == i, KANJI[i], t)
        return t, 'd', v
    if k in '789':
        return k, 'd', int(k)
    if k in SMALL:
        return k, 's', SMALL[k]
    if k in LARGE:
        return k, 'l', LARGE[k]
    return k, k, 0


class Numeral:
    """The value semantics: numbers are (digits, exponent)."""

    def __init__(self, S):
        self.S = S
        self.dead = False
        self.total = None
        self.sub = None
        self.begin_literal()

    def begin_literal(self):
        self.digits = []      # of the literal being read
        self.point = None     # number of digits before the point
        self.groups = None    # digits since the last comma, None without comma

    def literal(self):
        """(ok, number or None)"""
        if not self.digits:
            return True, None
        if self.point is not None and self.point == len(self.digits):
            return False, None
        if self.groups is not None and self.groups != 3:
            return False, None
        frac = 0 if self.point is None else len(self.digits) - self.point
        return True, (list(self.digits), -frac)

    def add(self, a, b):
        if b is None:
            return a
        if a is None:
            return b
        room = a[1] - (len(b[0]) + b[1])
        if room < 0:
            self.dead = True
            return a
        return (a[0] + [0] * room + b[0], b[1])

    def feed(self, kind, v):
        if self.dead:
            return
        if kind == 'd':
            self.digits.append(v)
            if self.groups is not None and self.point is None:
                self.groups += 1
            return
        if kind == '.':
            if not self.digits or self.point is not None or (self.groups is not None and self.groups != 3):
                self.dead = True
                return
            self.point = len(self.digits)
            return
        if kind == ',':
            if not self.digits or self.point is not None:
                self.dead = True
                return
            if self.groups is None:
                if len(self.digits) > 3 or all([bool(d == 0) for d in self.digits]):
                    self.dead = True
                    return
            elif self.groups != 3:
                self.dead = True
                return
            self.groups = 0
            return
        ok, lit = self.literal()
        if not ok:
            self.dead = True
            return
        self.begin_literal()
        if kind == 's':
            if lit is None:
                lit = ([1], 0)
            self.sub = self.add(self.sub, (lit[0], lit[1] + v))
        else:
            self.sub = self.add(self.sub, lit)
            if self.dead or self.sub is None:
                self.dead = True
                return
            self.total = self.add(self.total, (self.sub[0], self.sub[1] + v))
            self.sub = None

    def finish(self):
        """Code points of the normalized form, or None."""
        if self.dead:
            return None
        ok, lit = self.literal()
        if not ok:
            return None
        self.sub = self.add(self.sub, lit)
        self.total = self.add(self.total, self.sub)
        if self.dead:
            return None
        ds, e = self.total
        if e >= 0:
            return [48 + d for d in ds] + [48] * e
        n = len(ds) + e
        whole, frac = ds[:n], ds[n:]
        while frac and frac[-1] == 0:
            frac.pop()
        out = [48 + d for d in whole]
        if frac:
            out += [46] + [48 + d for d in frac]
        return out


# ------------------------------------------------------- cheapest analysis --
HIRA = 'DEFAULT 0 1 0\nHIRAGANA 1 0 %d\n0x3041..0x309F HIRAGANA\n'
UNKPOS = [['補助記号', '一般', '*', '*', '*', '*'], ['感動詞', '一般', '*', '*', '*', '*']]
CATCH = ['記号', '一般', '*', '*', '*', '*']


def simple(left, right, cost):
    return {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': CATCH, 'leftId': left, 'rightId': right, 'cost': cost}


def symbolic_cells(S, left, right, inhibit=0):
    """(right id of the left word, left id of the right word) -> cost; `left`
    is the number of the former."""
    return {(x, y): S.int('m%d_%d' % (x, y), -32768, 32766 + inhibit) for x in range(left) for y in range(right)}


def prices(S, name, n, lo):
    return [S.int('%s%d' % (name, i), lo, 32767) for i in range(n)]


def ids(S, name, words, kind, left, right):
    """Left and right ids of the words: given, or arbitrary."""
    if kind == 'any':
        return [(S.choice('%sl%d' % (name, i), range(right)), S.choice('%sr%d' % (name, i), range(left))) for i in range(len(words))]
    return [(i % right, (i // 2) % left) for i in range(len(words))]


def cheapest(S, texts, words, shape=(1, 1), users=(), mecab=0, entries=1, idkind='fixed', lo=-32768, inhibit=0, pairs=None, late=False, given={}):
    left, right = shape
    text = S.choice('text', texts) if len(texts) > 1 else texts[0]
    pos_rows = [row(w) for w in words] + [row('zz%d' % k, left=-1, pos=p) for k, p in enumerate([CATCH] + UNKPOS)]
    base = system_bytes(S, pos_rows, matrix_text(left, right, []))
    lay = layout(base)
    grid = symbolic_cells(S, left, right, inhibit)
    wid = ids(S, 'i', words, idkind, left, right)
    cost = [given[i] if i in given else S.int('c%d' % i, lo, 32767) for i in range(len(words))]
    patch = {cell_at(lay, x, y): grid[x, y] for x, y in grid}
    for i in range(len(words)):
        patch[param_at(lay, i, 0)] = wid[i][0]
        patch[param_at(lay, i, 1)] = wid[i][1]
        patch[param_at(lay, i, 2)] = cost[i]
    S.put('system.dic', patched(base, patch))
    vocab = [(w, (0, i), wid[i][0], wid[i][1], cost[i]) for i, w in enumerate(words)]
    names = []
    for k, uw in enumerate(users):
        img = user_bytes(S, [row(w) for w in uw], pos_rows, matrix_text(left, right, []))
        ul = layout(img)
        uid = ids(S, 'u%d' % k, uw, idkind, left, right)
        uc = prices(S, 'u%dc' % k, len(uw), max(lo, -32767))
        patch = {}
        for i in range(len(uw)):
            patch[param_at(ul, i, 0)] = uid[i][0]
            patch[param_at(ul, i, 1)] = uid[i][1]
            patch[param_at(ul, i, 2)] = uc[i]
            vocab.append((uw[i], (k + 1, i), uid[i][0], uid[i][1], uc[i]))
        S.put('user%d.dic' % k, patched(img, patch))
        names.append('user%d.dic' % k)
    # unknown words
    unk = []
    unkdef = ''
    for k in range(entries if mecab else 0):
        t, c = number(S, 'unk%d' % k, 3, k % 2 == 1)
        unk.append((1, 0, right - 1, left - 1, c) if k else (0, 0, 0, 0, c))
        unkdef += 'HIRAGANA,%d,%d,' % (unk[k][2], unk[k][3]) + t + ',' + ','.join(UNKPOS[k]) + '\n'
    sc = S.int('catch', lo, 32767)
    oov = ([MECAB] if mecab else []) + [simple(right - 1, left - 1, sc)]
    ch = Choice(S, len(text), grid)
    for i in range(len(text)):
        for w, key, l, r, c in vocab:
            if text.startswith(w, i):
                ch.add(i, i + len(w), key, l, r, c)
        for k in range(len(unk)):
            for n in range(1, mecab + 1):
                if i + n <= len(text):
                    ch.add(i, i + n, ('unk', k), unk[k][2], unk[k][3], unk[k][4])
        if not ch.at[i]:
            ch.add(i, i + 1, ('catch',), right - 1, left - 1, sc)
    d = dictionary(S, oov=oov, users=names, chardef=HIRA % mecab, unk=unkdef or None, conf={} if pairs is None else {'inhibitedPair': pairs})
    tok = d.create() if late else None
    if pairs is not None:
        P = S.load('sudachipy.plugin.connect_cost').InhibitConnectionPlugin()
        P.set_up(d.grammar)
        P.edit(d.grammar)
        for x in range(left):
            for y in range(right):
                for q in pairs:
                    if len(q) > 1:
                        ch.cells[x, y] = S.ite(S.and_(q[0] == x, q[1] == y), 32767, ch.cells[x, y])
    tok = tok or d.create()
    alts = [ch.cost(a) for a in ch.paths()]
    free = S.or_(*[S.not_(bad) for _, bad in alts])
    got = []
    try:
        ml = tok.tokenize(text)
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.check(S.not_(free), 'a text with an analysis is not refused')
        S.reach('refused')
        return
    for m in ml:
        if m.is_oov():
            p = m.part_of_speech()
            key = ('catch',) if p == CATCH else ('unk', 0 if p == UNKPOS[0] else 1)
            S.reach('unknown word chosen')
        else:
            key = (m.dictionary_id(), m.word_id() & 0xFFFFFFF)
            S.reach('dictionary word chosen')
        got.append((m.begin(), m.end(), key))
    S.observe('path', [(b, e, str(k)) for b, e, k in got])
    mine = ch.find(got)
    S.check(mine is not None, 'the analysis is made of candidates')
    total, bad = ch.cost(mine)
    S.check(S.not_(bad), 'no inhibited connection is used')
    if len(alts) > 1:
        S.reach('several analyses')
    S.check(S.and_(*[S.or_(b, total <= c) for c, b in alts]), 'no other analysis is cheaper')


def facts(m):
    """Everything a morpheme reports."""
    return (m.begin(), m.end(), m.surface(), tuple(m.part_of_speech()), m.part_of_speech_id(), m.dictionary_form(),
            m.normalized_form(), m.reading_form(), m.is_oov(), m.word_id(), m.dictionary_id(), tuple(m.synonym_group_ids()))


def report(ml):
    return [facts(m) for m in ml]


# -------------------------------------------------- the command and packages --
TYPES = ['small', 'core', 'full']


class Packages:
    """Installed dictionary packages."""

    def __init__(self, S, names):
        self.S = S
        self.kept = {}
        for t in TYPES:
            n = 'sudachidict_' + t
            self.kept[n] = sys.modules.get(n)
            sys.modules.pop(n, None)
            if t in names:
                m = types.ModuleType(n)
                m.__file__ = S.path('site/' + n + '/__init__.py')
                m.__path__ = [S.path('site/' + n)]
                m.__spec__ = importlib.machinery.ModuleSpec(n, None, origin=m.__file__, is_package=True)
                m.__spec__.submodule_search_locations.append(S.path('site/' + n))
                sys.modules[n] = m

    def file(self, t):
        return self.S.path('site/sudachidict_' + t + '/resources/system.dic')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for n in self.kept:
            sys.modules.pop(n, None)
            if self.kept[n] is not None:
                sys.modules[n] = self.kept[n]


class Out:
    """Standard output."""

    def __init__(self):
        self.text = ''

    def write(self, text):
        self.text = self.text + text
        return len(text)

    def flush(self):
        pass


class In:
    """Standard input."""

    def __init__(self, lines):
        self.lines = list(lines)

    def readline(self, limit=-1):
        return self.lines.pop(0) if self.lines else ''

    def __iter__(self):
        while self.lines:
            yield self.lines.pop(0)


def command(S, argv, stdin=()):
    """What the command prints."""
    main = S.load('sudachipy.command_line').main
    kept = sys.argv, sys.stdout, sys.stdin
    out = Out()
    sys.argv, sys.stdout, sys.stdin = ['sudachipy'] + argv, out, In(stdin)
    try:
        main()
    finally:
        sys.argv, sys.stdout, sys.stdin = kept
    return out.text
