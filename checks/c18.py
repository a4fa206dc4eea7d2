"""C18: unicode escapes in lexicon sources denote their code point."""
from common import case, row, header, quiet, matrix_text, full_matrix, system_bytes, csv_text, POS

ASSUMPTIONS = ['a braced number above 10FFFF denotes no code point and may be refused or kept; a lone surrogate cannot be stored']
REQUIRED = ['four digits', 'braces', 'look-alike', 'supplementary', 'no character']

HEX = ((0x30, 0x39), (0x41, 0x46), (0x61, 0x66))


def is_hex(S, c):
    return S.or_(*[S.and_(a <= c, c <= b) for a, b in HEX])


def digit(S, c):
    return S.ite(c <= 57, c - 48, S.ite(c <= 70, c - 55, c - 87))


def value(S, cs):
    v = 0
    for c in cs:
        v = v * 16 + digit(S, c)
    return v


def meaning(S, t):
    """Characters the text denotes, or None when it names no code point."""
    cs = S.codes(t)
    out = []
    i = 0
    while i < len(cs):
        if i + 1 < len(cs) and S.and_(cs[i] == 92, cs[i + 1] == 117):
            rest = cs[i + 2:]
            if len(rest) >= 4 and S.and_(*[is_hex(S, c) for c in rest[:4]]):
                out.append(value(S, rest[:4]))
                S.reach('four digits')
                i += 6
                continue
            if len(rest) >= 3 and rest[0] == 123:
                k = 1
                while k < len(rest) and is_hex(S, rest[k]):
                    k += 1
                if k > 1 and k < len(rest) and rest[k] == 125:
                    v = value(S, rest[1:k])
                    if v > 0x10FFFF:
                        S.reach('no character')
                        return None
                    S.reach('braces')
                    if v > 0xFFFF:
                        S.reach('supplementary')
                    out.append(v)
                    i += 2 + k + 1
                    continue
            S.reach('look-alike')
        out.append(cs[i])
        i += 1
    return out


def build(S, rows, user=False, csv=False):
    """The loaded dictionary, or None when the build stops."""
    B = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary
    if user:
        S.put('s.dic', system_bytes(S, [row('m'), row('n')], full_matrix(1)))
        D = B.from_system_dictionary(S.path('s.dic'))
        b = S.load('sudachipy.dictionarylib.userdictionarybuilder').UserDictionaryBuilder(D.grammar, D.lexicon, logger=quiet(S))
    else:
        b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    out = S.open(S.path('b.dic'), 'wb')
    out.write(header(S, 'USER_DICT_VERSION_3' if user else 'SYSTEM_DICT_VERSION_2'))
    try:
        if csv:
            b.build([S.put('b.csv', csv_text(rows))], None if user else S.stream(matrix_text(1, 1, [])), out)
        else:
            for r in rows:
                w = b.parse_line(r)
                if w.headword:
                    b.add_to_trie(w.headword, len(b.entries))
                b.entries.append(w)
            b.write_grammar(None if user else S.stream(matrix_text(1, 1, [])), out)
            b.write_lexicon(out)
    except Exception as e:
        S.observe('error', type(e).__name__)
        out.close()
        return None
    out.close()
    return B.from_user_dictionary(S.path('b.dic')) if user else B.from_system_dictionary(S.path('b.dic'))


def pieces(S, parts):
    """Fixed text and arbitrary characters."""
    t = ''
    for i, p in enumerate(parts):
        t += p if isinstance(p, str) else S.text('t%d' % i, p[0], p[1])
    return t


def decode(S, parts):
    t = pieces(S, parts)
    want = meaning(S, t)
    b = S.load('sudachipy.dictionarylib.dictionarybuilder').DictionaryBuilder(logger=quiet(S))
    try:
        got = b.decode(t)
    except Exception as e:
        S.observe('error', type(e).__name__)
        S.check(want is None, 'an escape of a code point is accepted')
        return
    if want is None:
        S.check(S.same(got, t), 'what names no code point is refused or kept')
        return
    S.check(len(got) == len(want), 'escapes stand for one character and other text is kept')
    S.check(S.same(S.codes(got), want), 'escapes stand for their code point and other text is kept')


def column(S, col, parts, user=False, csv=False):
    """The escape in a column of a row, stored and read back."""
    t = pieces(S, parts)
    want = meaning(S, t)
    r = row('k', surface='s', norm='n', read='r', pos=['p'] * 6)
    r[col] = t
    d = build(S, [row('a'), r], user, csv)
    if want is None:
        S.check(d is None, 'what names no code point is refused')
        return
    stored = S.and_(*[S.or_(c < 0xD800, c > 0xDFFF) for c in want])
    if col == 0:
        S.assume(S.and_(*[c > 0 for c in want]))
    if d is None:
        S.check(S.not_(stored), 'an escape of a character is accepted')
        return
    S.check(stored, 'a surrogate is not stored')
    w = d.lexicon.get_word_info(1)
    if col == 0:
        n = 0
        for c in want:
            n = n + S.ite(c < 0x80, 1, S.ite(c < 0x800, 2, S.ite(c < 0x10000, 3, 4)))
        S.check(w.length() == n, 'an escape in a headword stands for its character')
        key = ''.join(chr(c) for c in want).encode('utf-8')
        S.check([i for i, e in d.lexicon.lookup(key, 0) if e == n] == [1], 'an escape in a headword stands for its character')
        return
    got = {4: w.surface, 11: w.reading_form, 12: w.normalized_form}
    if col in got:
        S.check(S.same(S.codes(got[col]), want), 'an escape stands for its code point')
    else:
        p = d.grammar.get_part_of_speech_string(w.pos_id if not user else 0)
        S.check(S.same(S.codes(p[col - 5]), want), 'an escape stands for its code point')


def cases(tier):
    q = tier == 'quick'
    h = HEX
    odd = ((0x2F, 0x3A), (0x40, 0x47), (0x5C, 0x5C), (0x60, 0x67), (0x75, 0x75), (0x7B, 0x7B), (0x7D, 0x7D))
    out = [
        case('four', decode, 'any escape of four digits within other text', args=dict(parts=['a\\u', (4, h), 'b'])),
        case('four-more', decode, 'a fifth character behind four digits', args=dict(parts=['\\u', (4, h), (1, odd)])),
        case('broken', decode, 'four characters of digits, letters, braces, backslashes behind \\u', args=dict(parts=['\\u', (4, odd)])),
        case('two', decode, 'two escapes in a row', args=dict(parts=['\\u', (4, h), '\\u', (4, h)])),
        case('three', decode, 'three escapes and a character between', args=dict(parts=['\\u{', (5, h), '}\\u', (4, h), (1, odd), '\\u{', (3, h), '}'])),
        case('any-6', decode, 'any text of 6 characters', args=dict(parts=['\\', (6, '\\u{}4')])),
        case('not-again', decode, 'text that reads as an escape after decoding', args=dict(parts=['\\u00', (2, h), 'u', (4, h)])),
        case('not-again-2', decode, 'a backslash escape before braces', args=dict(parts=['\\u{5', (1, h), '}u{', (2, h), '}'])),
        case('brace-broken', decode, 'braces with 2 characters of any kind', args=dict(parts=['\\u{', (2, odd), '}x}'])),
        case('open', decode, 'an open brace and 2 characters', args=dict(parts=['x\\u{4', (2, odd)])),
        case('any-4', decode, 'any text of 4 characters of backslash, u, braces, 2 digits', args=dict(parts=[(2, '\\u'), (4, '\\u{}4g')])),
        case('end', decode, 'an escape at the very end', args=dict(parts=[(1, '\\a'), (1, 'uU'), (3, h)])),
    ]
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12):
        out.append(case('brace-%d' % n, decode, 'a braced escape of %d digits' % n, args=dict(parts=['\\u{', (n, h), '}z'])))
    for col in (0, 4, 5, 10, 11, 12):
        out.append(case('column-%d' % col, column, 'an escape of four digits in column %d' % col, args=dict(col=col, parts=['x\\u', (4, h)], csv=col == 4)))
        out.append(case('column-brace-%d' % col, column, 'a braced escape in column %d' % col, args=dict(col=col, parts=['\\u{', (5, h), '}x'], user=col in (5, 11))))
    if not q:
        out += [case('any-7', decode, 'any text of 7 characters', args=dict(parts=['\\u', (5, '\\u{}4g')])),
                case('brace-any', decode, 'braces with 4 characters of any kind', args=dict(parts=['\\u{', (4, odd), '}x}']))]
        for n in (10, 11, 16, 20):
            out.append(case('brace-%d' % n, decode, 'a braced escape of %d digits' % n, args=dict(parts=['\\u{', (n, h), '}z'])))
    return out
