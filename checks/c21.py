"""C21: numerals normalize to the number they denote."""
from common import case, draw, Numeral, DIGITS, KANJI, SMALL, LARGE

ASSUMPTIONS = [
    'characters are those of a numeral (ASCII digits, kanji digits, the six units, comma, point); others are covered by one case',
    'a comma group is 3 digits, the first group 1 to 3 digits and not all zero; a part must fit into the zeros of what precedes it',
    'io.StringIO is modelled (symex/models.py)',
]
BUDGET = {'quick': 240, 'thorough': 780}


def run_parser(S, parser, n, name, kinds, first=None):
    """n characters of these kinds, or as many as there are lists of kinds."""
    ref = Numeral(S)
    accepted = True
    text = ''
    for i in range(n):
        t, kind, v = draw(S, '%s%d' % (name, i), (kinds[i] if isinstance(kinds[0], list) else kinds) if i or first is None else first)
        text += t
        ref.feed(kind, v)
        if not parser.append(t):
            S.check(ref.dead, 'only a character that cannot continue a number is refused')
            accepted = False
            break
    if accepted:
        accepted = bool(parser.done())
    want = ref.finish()
    S.observe('accepted', accepted)
    if accepted:
        S.check(want is not None, 'an accepted string is a well-formed number')
        got = parser.get_normalized()
        S.observe('normalized', got)
        S.check(S.same(S.codes(got), want), 'normalized form is the plain notation of the value')
        S.reach('accepted')
    else:
        S.check(want is None, 'a well-formed number is accepted')
        S.reach('refused')


def parse(S, n, kinds, first=None):
    m = S.load('sudachipy.plugin.path_rewrite.numericparser')
    run_parser(S, m.NumericParser(), n, 'c', kinds, first)


def reuse(S, m1, n, kinds, others=None):
    m = S.load('sudachipy.plugin.path_rewrite.numericparser')
    parser = m.NumericParser()
    ok = True
    for i in range(m1):
        t, _, _ = draw(S, 'p%d' % i, others or kinds)
        if not parser.append(t):
            ok = False
            break
    if ok and parser.done():
        parser.get_normalized()
    parser.clear()
    run_parser(S, parser, n, 'c', kinds)


def other(S, n):
    """A character that is no part of a numeral is refused."""
    m = S.load('sudachipy.plugin.path_rewrite.numericparser')
    parser = m.NumericParser()
    for i in range(n):
        t, _, _ = draw(S, 'c%d' % i, ['a', '十', '万'])
        if not parser.append(t):
            return
    c = S.char('x', S.ANY)
    for d in DIGITS + KANJI + ''.join(SMALL) + ''.join(LARGE) + ',.':
        S.assume(c != d)
    S.check(not parser.append(c), 'another character is refused')


ALL = ['a', 'k'] + list(SMALL) + list(LARGE) + [',', '.']
FEW = ['a', '十', '千', '万', '億', ',', '.']


def cases(tier):
    out = []
    q = tier == 'quick'
    for n in range(1, 4 if q else 5):
        out.append(case('all-%d' % n, parse, 'every string of %d numeral characters' % n, args=dict(n=n, kinds=ALL)))
    for n in ((4, 5) if q else (5, 6)):
        for f in FEW[:4]:
            out.append(case('few-%d-%s' % (n, f), parse, 'strings of %d characters of 0-9 %s, the first %s' % (n, ' '.join(FEW[1:]), f),
                            args=dict(n=n, kinds=FEW, first=[f])))
    for n in ((6, 7, 8) if q else (7, 8, 9, 10)):
        out.append(case('digits-%d' % n, parse, 'strings of %d of 0-9 , .' % n, args=dict(n=n, kinds=['a', ',', '.'])))
    for n in ((6,) if q else (7, 8)):
        out.append(case('units-%d' % n, parse, 'strings of %d of 0-9 hyaku sen man .' % n,
                        args=dict(n=n, kinds=['a', '百', '万', '.'])))
    out.append(case('reuse', reuse, 'two strings of %d and 3 characters with clear() between' % (2 if q else 3),
                    args=dict(m1=2 if q else 3, n=3, kinds=['a', '百', '万', ',', '.'])))
    comma = [['a'], [',', 'a', '.'], ['a'], ['a'], ['a', '百']]
    out.append(case('reuse-comma', reuse, 'two strings of %d and 5 characters (a comma group) with clear() between' % (1 if q else 2),
                    args=dict(m1=1 if q else 2, n=5, kinds=comma, others=['a', '百', '万', ',', '.'])))
    out.append(case('after-unit', parse, 'a comma group after a unit', args=dict(n=7, kinds=[['a'], ['万', '千', ','], ['a', '百'], [',', 'a'], ['a'], ['a'], ['a', '.']])))
    out.append(case('before-unit', parse, 'a comma group before a unit', args=dict(n=7, kinds=[['a', '千'], [','], ['a'], ['a'], ['a'], ['百', '万', '億', 'a'], ['a', '.', '千']])))
    out.append(case('long', parse, '20 digits, then digits, a unit or a point', args=dict(n=24, kinds=[['a']] + [['7'], ['8'], ['9']] * 6 + [['a']] + [['a', '万', '.', '兆'], ['a'], ['a', '.', '千'], ['a']])))
    out.append(case('long-after', parse, 'a unit and 12 to 18 digits or zeros', args=dict(n=21, kinds=[['a'], ['兆', '億']] + [['9']] * 10 + [['a', '万']] + [['7']] * 4 + [['a'], ['a', '.'], ['a'], ['a']])))
    out.append(case('long-comma', parse, '12 comma groups, the last of any size', args=dict(n=50, kinds=[['a'], [','], ['7'], ['8'], ['9']] + [[','], ['9'], ['8'], ['7']] * 10 + [[','], ['a'], ['a', ','], ['7', '.'], ['a', '.', '万']])))
    out.append(case('other', other, 'one character outside the numerals after up to 2 numerals', args=dict(n=2)))
    return out


REQUIRED = ['accepted', 'refused']
