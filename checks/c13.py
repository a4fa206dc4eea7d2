"""C13: dictionary headers round-trip and only the right kind of file is accepted."""
from common import case, row, system_bytes, user_bytes, full_matrix, layout, without_grammar

ASSUMPTIONS = ['creation times from 0 below 2^63 (later or earlier ones do not fit a signed 64-bit number)', 'descriptions hold no NUL (it ends a description in the file)']
REQUIRED = ['round trip', 'too long', 'system', 'user', 'refused', 'no part-of-speech table', 'no synonym groups']

SYSTEM = [0x7366d3f18bd111e7, 0xce9f011a92394434]
USER = [0xa50f31188bd211e7, 0x9fdeb5a90168d868, 0xca9811756ff64fb0]
WORDS = [row('a', cost=5, syn='7/8'), row('b', pos=['p'] * 6)]
OWN = [row('c', syn='9', pos=['q'] * 6), row('a', syn='1/2/3')]


def trip(S, const, n, dom=None, lead=0, tail=0):
    """A header written and read back."""
    H = S.load('sudachipy.dictionarylib.dictionaryheader').DictionaryHeader
    v = S.int('version', 0, (1 << 64) - 1)
    t = S.int('time', 0, (1 << 63) - 1)
    d = 'x' * const + S.text('d', n, dom or S.TEXT)
    size = const
    for c in S.codes(d)[const:]:
        size = size + S.ite(c < 0x80, 1, S.ite(c < 0x800, 2, S.ite(c < 0x10000, 3, 4)))
    try:
        b = H(v, t, d).to_bytes()
    except ValueError:
        S.check(size > 256, 'a description that fits is accepted')
        S.reach('too long')
        return
    S.check(size <= 256, 'a description that does not fit is refused')
    S.check(len(b) == 272, 'a header always has the same size')
    h = H.from_bytes(b'\x01' * lead + b + b'\xe3' * tail, lead)
    S.check(S.and_(h.version == v, h.create_time == t), 'version and creation time are read as written')
    S.check(S.same(h.description, d), 'the description is read as written')
    S.check(h.storage_size() == 272, 'a header always has the same size')
    S.check(S.same(h.is_system_dictionary(), S.or_(*[v == k for k in SYSTEM])), 'the version tells the kind')
    S.check(S.same(h.is_user_dictionary(), S.or_(*[v == k for k in USER])), 'the version tells the kind')
    S.reach('round trip')


def gate(S, how, what):
    """A file of any version."""
    v = S.int('version', 0, (1 << 64) - 1)
    image = system_bytes(S, WORDS, full_matrix(1)) if what == 'system' else user_bytes(S, OWN, WORDS, full_matrix(1))
    rows = WORDS if what == 'system' else OWN
    # the first version of user dictionaries has no table
    plain = v == USER[0]
    if plain:
        image = without_grammar(image)
    S.put('x.dic', v.to_bytes(8, 'little') + image[8:])
    B = S.load('sudachipy.dictionarylib.binarydictionary').BinaryDictionary
    mine = S.or_(*[v == k for k in (SYSTEM if how == 'system' else USER)])
    try:
        d = (B.from_system_dictionary if how == 'system' else B.from_user_dictionary)(S.path('x.dic'))
    except Exception as e:
        S.check(S.not_(mine), 'a file of the right kind is accepted')
        S.observe('error', type(e).__name__)
        S.reach('refused')
        return
    S.check(mine, 'a file of another kind is refused')
    S.reach(how)
    S.check((d.grammar is None) == plain, 'the version tells whether there is a part-of-speech table')
    S.check(d.header.version == v, 'the header is that of the file')
    if plain:
        S.reach('no part-of-speech table')
    elif what == 'system':
        S.check(list(d.grammar.get_part_of_speech_string(1)) == ['p'] * 6, 'the part-of-speech table is read')
    else:
        S.check(list(d.grammar.get_part_of_speech_string(0)) == ['q'] * 6, 'the part-of-speech table is read')
    syn = S.or_(v == SYSTEM[1], v == USER[2])
    for i, r in enumerate(rows):
        w = d.lexicon.get_word_info(i)
        S.check(w.surface == r[0], 'words are read')
        if syn:
            S.check(list(w.synonym_group_ids) == ([] if r[18] == '*' else [int(x) for x in r[18].split('/')]), 'the version tells whether there are synonym groups')
        else:
            S.reach('no synonym groups')
            S.check(list(w.synonym_group_ids) == [], 'the version tells whether there are synonym groups')


def cases(tier):
    q = tier == 'quick'
    out = [case('short-%d' % n, trip, 'any version, time and description of %d characters' % n, args=dict(const=0, n=n)) for n in (0, 1, 2)]
    out += [case('full-%d-%d' % (k, n), trip, 'descriptions of %d octets and %d characters' % (k, n), args=dict(const=k, n=n, tail=3)) for k, n in ((255, 1), (252, 2), (256, 1), (254, 2))]
    out += [case('offset', trip, 'a header behind other bytes', args=dict(const=250, n=2, lead=5, tail=2)),
            case('offset-full', trip, 'a full header behind other bytes', args=dict(const=255, n=1, lead=300))]
    for how in ('system', 'user'):
        for what in ('system', 'user'):
            out.append(case('gate-%s-%s' % (how, what), gate, 'a file of a %s dictionary under any version loaded as a %s dictionary' % (what, how), args=dict(how=how, what=what)))
    if not q:
        out += [case('short-3', trip, 'a description of 3 characters', args=dict(const=0, n=3)),
                case('short-4', trip, 'a description of 4 characters', args=dict(const=0, n=4))]
        out += [case('full-%d-%d' % (k, n), trip, 'descriptions of %d octets and %d characters' % (k, n), args=dict(const=k, n=n)) for k, n in ((240, 4), (253, 3), (248, 3), (300, 1), (1000, 1))]
    return out
