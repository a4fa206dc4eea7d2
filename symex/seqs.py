"""Symbolic strings and byte strings: tuples of (possibly symbolic) numbers."""
import bisect
import sys
import unicodedata

import z3

from . import core
from .core import (Sym, SymBool, SymInt, Unsupported, bexpr, ite, mkbool, mkint,
                   sand, sor, snot, is_int)


# ---------------------------------------------------------------- tables --
class CharTable:
    """A function on code points, tabulated from the real Python, applied to a
    symbolic character by forking on the shape of the result."""

    def __init__(self, fn):
        self.fn = fn
        self.cache = {}

    def segments(self, lo, hi):
        key = (lo, hi)
        got = self.cache.get(key)
        if got is not None:
            return got
        # classes: 'shift' segments by delta ; others by output length
        kinds = {}
        fn = self.fn
        cur = None
        for cp in range(lo, hi + 1):
            out = fn(cp)
            if len(out) == 1:
                k, d = 1, out[0] - cp
            else:
                k, d = len(out), out
            if cur is not None and cur[0] == k and k == 1 and cur[3] == d and cur[2] == cp - 1:
                cur[2] = cp
            else:
                cur = [k, cp, cp, d]
                kinds.setdefault(k, []).append(cur)
        self.cache[key] = kinds
        return kinds

    def whole(self):
        """(starts, segments) over all code points; a segment is
        (lo, hi, delta) or (lo, hi, outputs)."""
        got = self.cache.get('whole')
        if got is None:
            segs = sorted((s[1], s[2], s[3]) for ss in self.segments(0, 0x10FFFF).values() for s in ss)
            got = self.cache['whole'] = ([s[0] for s in segs], segs)
        return got

    def compose(self, segs):
        """length of the result -> (ranges, segments of each output)"""
        key = ('c', segs)
        got = self.cache.get(key)
        if got is not None:
            return got
        starts, table = self.whole()
        kinds = {}

        def put(lo, hi, outs):
            rs, os = kinds.setdefault(len(outs), ([], [[] for _ in outs]))
            rs.append((lo, hi))
            for o, (d, k) in zip(os, outs):
                o.append((lo, hi, d, k))

        for a, b, d, k in segs:
            if k == 0:
                put(a, b, [(o, 0) for o in self.fn(d)])
                continue
            assert k == 1 or a == b
            if k != 1:
                a2 = a * k + d
                d, k = a2 - a, 1
            i = bisect.bisect_right(starts, a + d) - 1
            while i < len(table) and table[i][0] <= b + d:
                lo, hi, t = table[i]
                lo, hi = max(a, lo - d), min(b, hi - d)
                if lo <= hi:
                    put(lo, hi, [(d + t, 1)] if isinstance(t, int) else [(o, 0) for o in t])
                i += 1
        out = []
        for n, (rs, os) in kinds.items():
            out.append((core.r_norm(rs), [tuple(sorted(o)) for o in os]))
        out.sort(key=lambda x: -sum(b - a + 1 for a, b in x[0]))
        if len(self.cache) > 3000:
            self.cache.clear()
        self.cache[key] = out
        return out

    def apply_fn(self, c):
        vid = c.fn[0]
        segs = core.segs_now(c)
        if any(s[3] not in (0, 1) and s[0] != s[1] for s in segs):
            return self.fn(int(c))
        for rs, outs in self.compose(segs):
            cond = core.mkbox(vid, rs)
            if cond:
                return tuple(core.mkfn(vid, tuple(core.restrict(o, core.E.dom[vid]))) for o in outs)
        raise core.PathEnd()

    def apply(self, c):
        """tuple of output characters for the character c."""
        if not isinstance(c, SymInt):
            return self.fn(c)
        if c.fn is not None:
            return self.apply_fn(c)
        dom = domain_of(c)
        kinds = {}
        for lo, hi in dom:
            for k, segs in self.segments(lo, hi).items():
                kinds.setdefault(k, []).extend(segs)
        order = sorted(kinds, key=lambda k: -sum(s[2] - s[1] for s in kinds[k]))
        for i, k in enumerate(order):
            segs = kinds[k]
            if i < len(order) - 1:
                cond = in_ranges(c, [(s[1], s[2]) for s in segs])
                if not cond:
                    continue
            if k == 1:
                # identity first
                bydelta = {}
                for s in segs:
                    bydelta.setdefault(s[3], []).append((s[1], s[2]))
                ds = sorted(bydelta, key=lambda d: -sum(b - a for a, b in bydelta[d]))
                if len(ds) > 1 and 0 in bydelta:
                    if in_ranges(c, bydelta[0]):
                        return (c,)
                    ds.remove(0)
                r = c + ds[0]
                for d in ds[1:]:
                    r = ite(in_ranges(c, bydelta[d]), c + d, r)
                return (r,)
            out = list(segs[0][3])
            for s in segs[1:]:
                cond = c == s[1]
                out = [ite(cond, a, b) for a, b in zip(s[3], out)]
            return tuple(out)
        raise core.PathEnd()


def domain_of(c):
    if c.fn is not None:
        return core.r_norm([(d, d) if k == 0 else (min(a * k + d, b * k + d), max(a * k + d, b * k + d))
                            for a, b, d, k in core.segs_now(c)])
    lo = 0 if c.lo is None else max(0, c.lo)
    hi = 0x10FFFF if c.hi is None else min(0x10FFFF, c.hi)
    return [(lo, hi)]


def in_ranges(c, ranges):
    """SymBool: c lies in one of the ranges (merged where adjacent)."""
    if not isinstance(c, SymInt):
        return any(a <= c <= b for a, b in ranges)
    if c.fn is not None:
        return core.mkbox(c.fn[0], core.preimage_ranges(core.segs_now(c), core.r_norm(ranges)))
    rs = sorted(ranges)
    m = []
    for a, b in rs:
        if m and a <= m[-1][1] + 1:
            m[-1][1] = max(m[-1][1], b)
        else:
            m.append([a, b])
    es = []
    for a, b in m:
        if c.lo is not None and b < c.lo or c.hi is not None and a > c.hi:
            continue
        if a == b:
            es.append(c == a)
        else:
            es.append(sand(c >= a, c <= b))
    return sor(*es) if es else False


def class_table(pred):
    """A predicate on code points as a function on symbolic characters."""
    whole = []

    def test(c):
        if not isinstance(c, SymInt):
            return bool(pred(c))
        if not whole:
            got = []
            start = None
            for cp in range(0x110000):
                if pred(cp):
                    if start is None:
                        start = cp
                elif start is not None:
                    got.append((start, cp - 1))
                    start = None
            if start is not None:
                got.append((start, 0x10FFFF))
            whole.append(tuple(got))
        if c.fn is not None:
            return core.mkbox(c.fn[0], core.preimage_ranges(core.segs_now(c), whole[0]))
        return in_ranges(c, core.r_and(whole[0], tuple(domain_of(c))))
    return test


_lower = CharTable(lambda cp: tuple(map(ord, chr(cp).lower())))
_upper = CharTable(lambda cp: tuple(map(ord, chr(cp).upper())))
_norm = {f: CharTable(lambda cp, f=f: tuple(map(ord, unicodedata.normalize(f, chr(cp)))))
         for f in ('NFC', 'NFD', 'NFKC', 'NFKD')}
is_space = class_table(lambda cp: chr(cp).isspace())
is_digit = class_table(lambda cp: chr(cp).isdigit())
is_decimal = class_table(lambda cp: chr(cp).isdecimal())
is_numeric = class_table(lambda cp: chr(cp).isnumeric())
is_alpha = class_table(lambda cp: chr(cp).isalpha())
is_alnum = class_table(lambda cp: chr(cp).isalnum())
is_upper = class_table(lambda cp: chr(cp).isupper())
is_lower = class_table(lambda cp: chr(cp).islower())
is_title = class_table(lambda cp: chr(cp).istitle())
_title = CharTable(lambda cp: tuple(map(ord, chr(cp).title())))
_swap = CharTable(lambda cp: tuple(map(ord, chr(cp).swapcase())))
is_printable = class_table(lambda cp: chr(cp).isprintable())
is_word = class_table(lambda cp: chr(cp).isalnum() or cp == 95)
is_linebreak = class_table(lambda cp: len(('a' + chr(cp) + 'b').splitlines()) == 2)
decimal_value = CharTable(lambda cp: (unicodedata.decimal(chr(cp), 0),))


# ------------------------------------------------------------------ base --
def chars(x):
    if isinstance(x, SymStr):
        return x.c
    if isinstance(x, str):
        return tuple(map(ord, x))
    raise TypeError('expected str, got %s' % type(x).__name__)


def octets(x):
    if isinstance(x, (SymBytes, SByteArray)):
        return tuple(x.c)
    if isinstance(x, (bytes, bytearray)):
        return tuple(x)
    from .models import SMemoryView
    if isinstance(x, SMemoryView):
        return tuple(x.octets())
    raise TypeError("a bytes-like object is required, not '%s'" % pytype(x).__name__)


def pytype(x):
    from .containers import SSet, SDict
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBytes):
        return bytes
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    return type(x)


def mkstr(cs):
    cs = tuple(cs)
    for c in cs:
        if isinstance(c, SymInt):
            return SymStr(cs)
    return ''.join(map(chr, cs))


def mkbytes(cs):
    cs = tuple(cs)
    for c in cs:
        if isinstance(c, SymInt):
            return SymBytes(cs)
    return bytes(cs)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        r = x == y
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return sand(*out)


def seq_lt(a, b, or_eq):
    """Lexicographic order as one formula."""
    r = (len(a) <= len(b)) if or_eq else (len(a) < len(b))
    for x, y in reversed(list(zip(a, b))):
        r = sor(x < y, sand(x == y, r))
    return r


def _norm_slice(i, n, default):
    if i is None:
        return default
    return i


class _Seq(Sym):
    __slots__ = ()

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __eq__(self, o):
        oc = self._coerce(o)
        if oc is None:
            return False
        return seq_eq(self.c, oc)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        return self._order(o, lambda a, b: seq_lt(a, b, False))

    def __le__(self, o):
        return self._order(o, lambda a, b: seq_lt(a, b, True))

    def __gt__(self, o):
        return self._order(o, lambda a, b: seq_lt(b, a, False))

    def __ge__(self, o):
        return self._order(o, lambda a, b: seq_lt(b, a, True))

    def _order(self, o, f):
        oc = self._coerce(o)
        if oc is None:
            return NotImplemented
        return f(self.c, oc)

    def __hash__(self):
        # concretises: last resort for containers the engine does not model
        return hash(self.concrete())

    def __add__(self, o):
        oc = self._coerce(o)
        if oc is None:
            return NotImplemented
        return self._mk(tuple(self.c) + tuple(oc))

    def __radd__(self, o):
        oc = self._coerce(o)
        if oc is None:
            return NotImplemented
        return self._mk(tuple(oc) + tuple(self.c))

    def __mul__(self, n):
        if not is_int(n):
            return NotImplemented
        return self._mk(tuple(self.c) * int(n))

    __rmul__ = __mul__

    def __reversed__(self):
        return iter([self[i] for i in range(len(self.c) - 1, -1, -1)])

    # shared search helpers; results as in str/bytes
    def _sub(self, x):
        oc = self._coerce(x)
        if oc is None:
            raise TypeError('wrong operand type %s' % type(x).__name__)
        return oc

    def _range(self, start, end):
        n = len(self.c)
        s, e, _ = slice(_ix(start), _ix(end)).indices(n)
        return s, e

    def _at(self, i, sub):
        if i < 0 or i + len(sub) > len(self.c):
            return False
        return seq_eq(self.c[i:i + len(sub)], sub)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.startswith(q, start, end) for q in p])
        sub = self._sub(p)
        s, e = self._range(start, end)
        if (start is not None and int(start) > len(self.c)):
            return False
        return False if s + len(sub) > e else self._at(s, sub)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.endswith(q, start, end) for q in p])
        sub = self._sub(p)
        s, e = self._range(start, end)
        return False if e - len(sub) < s else self._at(e - len(sub), sub)

    def find(self, x, start=None, end=None):
        sub = self._sub(x)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, x, start=None, end=None):
        sub = self._sub(x)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, x, start=None, end=None):
        r = self.find(x, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, x, start=None, end=None):
        r = self.rfind(x, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, x, start=None, end=None):
        sub = self._sub(x)
        s, e = self._range(start, end)
        if len(sub) == 0:
            return e - s + 1 if e >= s else 0
        if len(sub) == 1:
            t = 0
            for i in range(s, e):
                t = t + ite(self._at(i, sub), 1, 0)
            return t
        n, i = 0, s
        while i <= e - len(sub):
            if self._at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        o, nw = self._sub(old), tuple(self._sub(new))
        count = int(count)
        out, i, n = [], 0, 0
        c = self.c
        if not o:
            for k, ch in enumerate(c):
                if n != count:
                    out.extend(nw)
                    n += 1
                out.append(ch)
            if n != count:
                out.extend(nw)
            return self._mk(out)
        while i < len(c):
            if n != count and self._at(i, o):
                out.extend(nw)
                i += len(o)
                n += 1
            else:
                out.append(c[i])
                i += 1
        return self._mk(out)

    def _space(self, ch):
        raise NotImplementedError

    def _striptest(self, arg):
        if arg is None:
            return self._space
        sub = self._sub(arg)
        return lambda ch: sor(*[ch == x for x in sub]) if sub else False

    def strip(self, arg=None):
        t = self._striptest(arg)
        a, b = 0, len(self.c)
        while a < b and t(self.c[a]):
            a += 1
        while b > a and t(self.c[b - 1]):
            b -= 1
        return self._mk(self.c[a:b])

    def lstrip(self, arg=None):
        t = self._striptest(arg)
        a, b = 0, len(self.c)
        while a < b and t(self.c[a]):
            a += 1
        return self._mk(self.c[a:b])

    def rstrip(self, arg=None):
        t = self._striptest(arg)
        b = len(self.c)
        while b > 0 and t(self.c[b - 1]):
            b -= 1
        return self._mk(self.c[:b])

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        c, out = self.c, []
        if sep is None:
            i, n = 0, len(c)
            while True:
                while i < n and self._space(c[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and self._space(c[j - 1]):
                        j -= 1
                    out.append(self._mk(c[i:j]))
                    break
                j = i
                while j < n and not self._space(c[j]):
                    j += 1
                out.append(self._mk(c[i:j]))
                i = j
            return out
        sub = self._sub(sep)
        if not sub:
            raise ValueError('empty separator')
        i = start = 0
        while i <= len(c) - len(sub):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._at(i, sub):
                out.append(self._mk(c[start:i]))
                i += len(sub)
                start = i
            else:
                i += 1
        out.append(self._mk(c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if int(maxsplit) < 0:
            return self.split(sep)
        r = self._mk(tuple(reversed(self.c)))
        if not isinstance(r, _Seq):
            return self.concrete().rsplit(sep, maxsplit)
        if sep is not None:
            sep = self._mk(tuple(reversed(self._sub(sep))))
        return [self._mk(tuple(reversed(self._sub(x)))) for x in reversed(r.split(sep, maxsplit))]

    def partition(self, sep):
        sub = self._sub(sep)
        i = self.find(sep)
        if i < 0:
            return (self, self._mk(()), self._mk(()))
        return (self._mk(self.c[:i]), sep, self._mk(self.c[i + len(sub):]))

    def rpartition(self, sep):
        sub = self._sub(sep)
        i = self.rfind(sep)
        if i < 0:
            return (self._mk(()), self._mk(()), self)
        return (self._mk(self.c[:i]), sep, self._mk(self.c[i + len(sub):]))

    def removeprefix(self, p):
        return self._mk(self.c[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return self._mk(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else self

    def ljust(self, w, fill=None):
        f = self._sub(fill if fill is not None else self._blank)
        return self._mk(tuple(self.c) + f * max(0, int(w) - len(self.c)))

    def rjust(self, w, fill=None):
        f = self._sub(fill if fill is not None else self._blank)
        return self._mk(f * max(0, int(w) - len(self.c)) + tuple(self.c))

    def zfill(self, w):
        z = self._sub(self._mk((48,)))
        n = max(0, int(w) - len(self.c))
        if n and len(self.c) and sor(self.c[0] == 43, self.c[0] == 45):
            return self._mk(self.c[:1] + z * n + self.c[1:])
        return self._mk(z * n + tuple(self.c))

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.extend(self.c)
            out.extend(self._sub(x))
        return self._mk(out)


def _ix(x):
    return x if x is None or type(x) is int else int(x)


def _getslice(self, k):
    n = len(self.c)
    return self.c[slice(_ix(k.start), _ix(k.stop), _ix(k.step))]


class SymStr(_Seq):
    __slots__ = ('c',)
    _blank = ' '

    def __init__(self, c):
        self.c = c

    @staticmethod
    def _mk(c):
        return mkstr(c)

    @staticmethod
    def _coerce(o):
        if isinstance(o, SymStr):
            return o.c
        if isinstance(o, str):
            return tuple(map(ord, o))
        return None

    _space = staticmethod(is_space)

    def concrete(self):
        return ''.join(chr(core.E.pick(c)) if isinstance(c, SymInt) else chr(c) for c in self.c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkstr(_getslice(self, k))
        from .rt import seq_index
        return mkstr((seq_index(self.c, k, 'string index out of range'),))

    def __iter__(self):
        for c in self.c:
            yield mkstr((c,))

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        sub = self._coerce(x)
        if sub is None:
            raise TypeError("'in <string>' requires string as left operand, not %s" % pytype(x).__name__)
        if not sub:
            return True
        return sor(*[self._at(i, sub) for i in range(len(self.c) - len(sub) + 1)])

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __mod__(self, a):
        return self.concrete() % a

    def __rmod__(self, a):
        return NotImplemented

    def __fspath__(self):
        return self.concrete()

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def _map(self, table):
        out = []
        for c in self.c:
            out.extend(table.apply(c))
        return mkstr(out)

    def lower(self):
        for i, c in enumerate(self.c):
            if c == 0x3A3 and len(self.c) > 1:
                # final sigma depends on context: concretise this rare case
                return self.concrete().lower()
        return self._map(_lower)

    def casefold(self):
        return self.concrete().casefold()

    def upper(self):
        return self._map(_upper)

    def _all(self, test):
        if not self.c:
            return False
        return sand(*[test(c) for c in self.c])

    def isdigit(self):
        return self._all(is_digit)

    def isdecimal(self):
        return self._all(is_decimal)

    def isnumeric(self):
        return self._all(is_numeric)

    def isalpha(self):
        return self._all(is_alpha)

    def isalnum(self):
        return self._all(is_alnum)

    def isspace(self):
        return self._all(is_space)

    def isascii(self):
        return sand(*[c < 128 for c in self.c])

    def isprintable(self):
        return sand(*[is_printable(c) for c in self.c])

    def isupper(self):
        return self.concrete().isupper() if len(self.c) != 1 else is_upper(self.c[0])

    def islower(self):
        return self.concrete().islower() if len(self.c) != 1 else is_lower(self.c[0])

    def splitlines(self, keepends=False):
        out, start, i, n = [], 0, 0, len(self.c)
        while i < n:
            if is_linebreak(self.c[i]):
                j = i + 1
                if j < n and sand(self.c[i] == 13, self.c[j] == 10):
                    j += 1
                out.append(mkstr(self.c[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(mkstr(self.c[start:]))
        return out

    def translate(self, table):
        out = []
        for c in self.c:
            r = None
            hit = False
            for k, v in table.items():
                if c == k:
                    r, hit = v, True
                    break
            if not hit:
                out.append(c)
            elif r is None:
                pass
            elif is_int(r):
                out.append(r)
            else:
                out.extend(chars(r))
        return mkstr(out)

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def isidentifier(self):
        return self.concrete().isidentifier()

    def istitle(self):
        return self.concrete().istitle() if len(self.c) != 1 else is_title(self.c[0])

    def title(self):
        return self.concrete().title() if len(self.c) != 1 else self._map(_title)

    def capitalize(self):
        return self.concrete().capitalize() if len(self.c) != 1 else self._map(_title)

    def swapcase(self):
        return self.concrete().swapcase() if len(self.c) != 1 else self._map(_swap)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return getattr(self.concrete(), name)

    def expandtabs(self, n=8):
        return self.concrete().expandtabs(n)


class SymBytes(_Seq):
    __slots__ = ('c',)
    _blank = b' '

    def __init__(self, c):
        self.c = c

    @staticmethod
    def _mk(c):
        return mkbytes(c)

    @staticmethod
    def _coerce(o):
        if isinstance(o, (SymBytes, SByteArray)):
            return tuple(o.c)
        if isinstance(o, (bytes, bytearray)):
            return tuple(o)
        from .models import SMemoryView
        if isinstance(o, SMemoryView):
            return tuple(o.octets())
        return None

    def _sub(self, x):
        if is_int(x):
            return (x,)
        return _Seq._sub(self, x)

    @staticmethod
    def _space(c):
        return sor(c == 32, sand(c >= 9, c <= 13))

    def isascii(self):
        return sand(*[c < 128 for c in self.c])

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute '%s'" % name)
        return getattr(self.concrete(), name)

    def concrete(self):
        return bytes(core.E.pick(c) if isinstance(c, SymInt) else c for c in self.c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkbytes(_getslice(self, k))
        from .rt import seq_index
        return seq_index(self.c, k, 'index out of range')

    def __iter__(self):
        return iter(self.c)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if is_int(x):
            return sor(*[c == x for c in self.c])
        sub = self._sub(x)
        if not sub:
            return True
        return sor(*[self._at(i, sub) for i in range(len(self.c) - len(sub) + 1)])

    def __bytes__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self.c, encoding, errors)

    def hex(self):
        return self.concrete().hex()

    def lower(self):
        return mkbytes(ite(sand(c >= 65, c <= 90), c + 32, c) for c in self.c)

    def upper(self):
        return mkbytes(ite(sand(c >= 97, c <= 122), c - 32, c) for c in self.c)

    def isdigit(self):
        return sand(*[sand(c >= 48, c <= 57) for c in self.c]) if self.c else False


class SByteArray(_Seq):
    """bytearray: mutable, always this model in instrumented code."""
    __slots__ = ('c',)
    _blank = b' '

    def __init__(self, src=None, encoding=None, errors='strict'):
        if src is None:
            self.c = []
        elif is_int(src):
            self.c = [0] * int(src)
        elif isinstance(src, (str, SymStr)):
            self.c = list(octets(encode(src, encoding, errors)))
        else:
            try:
                self.c = list(octets(src))
            except TypeError:
                self.c = [byte_value(x) for x in src]

    @staticmethod
    def _mk(c):
        return SByteArray(mkbytes(c))

    _coerce = SymBytes._coerce
    _sub = SymBytes._sub
    _space = SymBytes._space
    contains = SymBytes.contains
    __contains__ = SymBytes.__contains__
    __hash__ = None

    def concrete(self):
        return bytes(core.E.pick(c) if isinstance(c, SymInt) else c for c in self.c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._mk(_getslice(self, k))
        from .rt import seq_index
        return seq_index(self.c, k, 'bytearray index out of range')

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.c[slice(_ix(k.start), _ix(k.stop), _ix(k.step))] = list(octets(v)) if not is_int(v) else [0] * int(v)
        else:
            self.c[int(k)] = byte_value(v)

    def __delitem__(self, k):
        if isinstance(k, slice):
            del self.c[slice(_ix(k.start), _ix(k.stop), _ix(k.step))]
        else:
            del self.c[int(k)]

    def __iadd__(self, o):
        self.c.extend(octets(o))
        return self

    def __iter__(self):
        return iter(self.c)

    def append(self, v):
        self.c.append(byte_value(v))

    def extend(self, it):
        try:
            self.c.extend(octets(it))
        except TypeError:
            self.c.extend(byte_value(v) for v in it)

    def clear(self):
        self.c.clear()

    def pop(self, i=-1):
        return self.c.pop(int(i))

    def insert(self, i, v):
        self.c.insert(int(i), byte_value(v))

    def reverse(self):
        self.c.reverse()

    def copy(self):
        return self._mk(self.c)

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(tuple(self.c), encoding, errors)

    def __bytes__(self):
        return self.concrete()

    def __repr__(self):
        return 'bytearray(%r)' % self.concrete()


def byte_value(v):
    if not is_int(v):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if isinstance(v, SymBool):
        v = v._int()
    if not sand(v >= 0, v <= 255):
        raise ValueError('byte must be in range(0, 256)')
    return v


# ---------------------------------------------------------------- codecs --
def _codec(encoding):
    import codecs
    n = codecs.lookup(encoding).name
    return n


def _u8(c, L):
    """the L bytes of symbolic code point c."""
    if L == 1:
        return [core.rebound(c, 0, 0x7F, ('u8', c, 0, 1), 0)]
    first = {2: 0xC0, 3: 0xE0, 4: 0xF0}[L]
    out = []
    for k in range(L):
        sh = 6 * (L - 1 - k)
        if k == 0:
            b = (c // (1 << sh)) + first
            lo, hi = {2: (0xC2, 0xDF), 3: (0xE0, 0xEF), 4: (0xF0, 0xF4)}[L]
        else:
            b = (c // (1 << sh)) % 64 + 0x80
            lo, hi = 0x80, 0xBF
        if isinstance(b, SymInt):
            b = core.rebound(b, lo, hi, ('u8', c, k, L), 0)
        out.append(b)
    return out


def encode(s, encoding='utf-8', errors='strict'):
    enc = _codec(encoding)
    cs = chars(s)
    out = []
    if errors != 'strict':
        return mkbytes(tuple((s.concrete() if isinstance(s, SymStr) else s).encode(encoding, errors)))
    if enc == 'utf-8':
        for i, c in enumerate(cs):
            if not isinstance(c, SymInt):
                out.extend(chr(c).encode('utf-8'))
                continue
            if c < 0x80:
                out.extend(_u8(c, 1))
            elif c < 0x800:
                out.extend(_u8(c, 2))
            elif c < 0x10000:
                if sand(c >= 0xD800, c <= 0xDFFF):
                    raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
                out.extend(_u8(c, 3))
            else:
                out.extend(_u8(c, 4))
        return mkbytes(out)
    if enc in ('utf-16-le', 'utf-16', 'utf-16-be'):
        if enc == 'utf-16':
            out.extend((0xFF, 0xFE))
        for c in cs:
            if not isinstance(c, SymInt):
                out.extend(chr(c).encode('utf-16-le' if enc != 'utf-16-be' else enc))
                continue
            if sand(c >= 0xD800, c <= 0xDFFF):
                raise UnicodeEncodeError(enc, '\ud800', 0, 1, 'surrogates not allowed')
            if c < 0x10000:
                units = [core.rebound(c, 0, 0xFFFF, ('u16', c, 0, 1), 0)]
            else:
                h = (c - 0x10000) // 1024 + 0xD800
                l = (c - 0x10000) % 1024 + 0xDC00
                units = []
                for k, u in enumerate((h, l)):
                    if isinstance(u, SymInt):
                        u = core.rebound(u, (0xD800, 0xDC00)[k], (0xDBFF, 0xDFFF)[k], ('u16', c, k, 2), 0)
                    units.append(u)
            for u in units:
                if isinstance(u, SymInt):
                    b = list(octets(u.to_bytes(2, 'little')))
                else:
                    b = [u & 255, u >> 8]
                if enc == 'utf-16-be':
                    b.reverse()
                out.extend(b)
        return mkbytes(out)
    if enc in ('ascii', 'iso8859-1'):
        top = 128 if enc == 'ascii' else 256
        for c in cs:
            if not c < top:
                raise UnicodeEncodeError(enc, '\ud800', 0, 1, 'ordinal not in range(%d)' % top)
            out.append(c)
        return mkbytes(out)
    if isinstance(s, SymStr):
        s = s.concrete()
    return s.encode(encoding, errors)


def int_from(bs, byteorder='little', signed=False):
    """int.from_bytes on a sequence of (symbolic) octets."""
    bs = list(bs)
    if byteorder == 'big':
        bs.reverse()
    n = len(bs)
    if not any(isinstance(b, SymInt) for b in bs):
        return int.from_bytes(bytes(bs), 'little', signed=signed)
    b0 = bs[0]
    if isinstance(b0, SymInt) and b0.src and b0.src[0] == 'le' and b0.src[3] == n:
        x = b0.src[1]
        ok = True
        for k, b in enumerate(bs):
            if isinstance(b, SymInt):
                if not (b.src and b.src[0] == 'le' and b.src[2] == k and b.src[3] == n and core.same_int(b.src[1], x)):
                    ok = False
                    break
            else:
                # a byte that folded to a constant: must be what x gives
                y = (x // (1 << (8 * k))) % 256
                if isinstance(y, SymInt) or y != b:
                    ok = False
                    break
        if ok and x.lo is not None and x.hi is not None:
            M = 1 << (8 * n)
            if signed:
                if x.lo >= -(M >> 1) and x.hi < (M >> 1):
                    return x
                if x.lo >= 0 and x.hi < M:
                    return ite(x >= (M >> 1), x - M, x)
            else:
                if x.lo >= 0 and x.hi < M:
                    return x
                if x.lo >= -(M >> 1) and x.hi < (M >> 1):
                    return ite(x < 0, x + M, x)
    v = 0
    for k, b in enumerate(bs):
        v = b * (1 << (8 * k)) + v
    if signed:
        M = 1 << (8 * n)
        v = ite(v >= (M >> 1), v - M, v)
    return v


def decode(bs, encoding='utf-8', errors='strict'):
    bs = tuple(bs)
    if not any(isinstance(b, SymInt) for b in bs):
        return bytes(bs).decode(encoding, errors)
    enc = _codec(encoding)
    if errors != 'strict':
        return bytes(int(b) for b in bs).decode(encoding, errors)
    out = []
    n = len(bs)
    if enc in ('utf-16-le', 'utf-16', 'utf-16-be'):
        order = 'big' if enc == 'utf-16-be' else 'little'
        i = 0
        if enc == 'utf-16' and n >= 2:
            u = int_from(bs[:2])
            if u == 0xFEFF:
                i = 2
            elif u == 0xFFFE:
                i = 2
                order = 'big'
        while i < n:
            if i + 2 > n:
                raise UnicodeDecodeError(enc, b'\0', 0, 1, 'truncated data')
            u = int_from(bs[i:i + 2], order)
            i += 2
            if isinstance(u, SymInt) and u.src and u.src[0] == 'u16' and u.src[3] == 1:
                out.append(u.src[1])
                continue
            if isinstance(u, SymInt) and u.src and u.src[0] == 'u16' and u.src[2] == 0 and i + 2 <= n:
                l = int_from(bs[i:i + 2], order)
                if isinstance(l, SymInt) and l.src and l.src[0] == 'u16' and l.src[2] == 1 \
                        and core.same_int(l.src[1], u.src[1]):
                    out.append(u.src[1])
                    i += 2
                    continue
            if not sand(u >= 0xD800, u <= 0xDFFF):
                out.append(u)
                continue
            if u >= 0xDC00:
                raise UnicodeDecodeError(enc, b'\0', 0, 1, 'illegal encoding')
            if i + 2 > n:
                raise UnicodeDecodeError(enc, b'\0', 0, 1, 'unexpected end of data')
            l = int_from(bs[i:i + 2], order)
            i += 2
            if not sand(l >= 0xDC00, l <= 0xDFFF):
                raise UnicodeDecodeError(enc, b'\0', 0, 1, 'illegal UTF-16 surrogate')
            out.append((u - 0xD800) * 1024 + (l - 0xDC00) + 0x10000)
        return mkstr(out)
    if enc == 'utf-8':
        i = 0

        def bad():
            raise UnicodeDecodeError('utf-8', b'\x80', 0, 1, 'invalid')
        while i < n:
            b = bs[i]
            if isinstance(b, SymInt) and b.src and b.src[0] == 'u8' and b.src[2] == 0:
                c, L = b.src[1], b.src[3]
                ok = i + L <= n
                for k in range(1, L):
                    if not ok:
                        break
                    d = bs[i + k]
                    if isinstance(d, SymInt):
                        ok = bool(d.src and d.src[0] == 'u8' and d.src[2] == k and core.same_int(d.src[1], c))
                    else:
                        ok = False
                if ok:
                    out.append(c)
                    i += L
                    continue
            if b < 0x80:
                out.append(b)
                i += 1
                continue
            if sor(b < 0xC2, b > 0xF4):
                bad()
            if b < 0xE0:
                L = 2
            elif b < 0xF0:
                L = 3
            else:
                L = 4
            if i + L > n:
                bad()
            v = b - {2: 0xC0, 3: 0xE0, 4: 0xF0}[L]
            for k in range(1, L):
                d = bs[i + k]
                if not sand(d >= 0x80, d <= 0xBF):
                    bad()
                v = v * 64 + (d - 0x80)
            if L == 3 and sor(v < 0x800, sand(v >= 0xD800, v <= 0xDFFF)):
                bad()
            if L == 4 and sor(v < 0x10000, v > 0x10FFFF):
                bad()
            out.append(v)
            i += L
        return mkstr(out)
    if enc in ('ascii', 'iso8859-1'):
        for b in bs:
            if enc == 'ascii' and not b < 128:
                raise UnicodeDecodeError(enc, b'\x80', 0, 1, 'ordinal not in range(128)')
            out.append(b)
        return mkstr(out)
    return bytes(int(b) for b in bs).decode(encoding, errors)


# ------------------------------------------------------------ conversions --
def int_of_str(s, base=10):
    """int(s, base) for a symbolic string (bytes are handled by the caller)."""
    base = int(base)
    cs = list(s.strip().c) if isinstance(s.strip(), SymStr) else None
    if cs is None:
        return int(s.strip(), base)

    def bad():
        raise ValueError('invalid literal for int() with base %d' % base)
    i = 0
    neg = False
    if cs[0] == 43:
        i = 1
    elif cs[0] == 45:
        i, neg = 1, True

    def lit(ch, a):
        return sor(ch == ord(a), ch == ord(a.upper()))
    if base in (0, 2, 8, 16) and i + 1 < len(cs) and cs[i] == 48:
        for bb, a in ((16, 'x'), (8, 'o'), (2, 'b')):
            if base in (0, bb) and lit(cs[i + 1], a):
                base = bb
                i += 2
                if i < len(cs) and cs[i] == 95:
                    i += 1
                break
    if base == 0:
        return int(s.concrete(), 0)
    if i >= len(cs):
        bad()
    v = 0
    prev_us = True
    for k in range(i, len(cs)):
        c = cs[k]
        if c == 95:
            if prev_us:
                bad()
            prev_us = True
            continue
        prev_us = False
        if base > 10:
            dec, low, up = sand(c >= 48, c <= 57), sand(c >= 97, c < 97 + base - 10), sand(c >= 65, c < 65 + base - 10)
            if sor(dec, low, up):
                v = v * base + ite(dec, c - 48, ite(low, c - 87, c - 55))
                continue
        if sand(c >= 48, c <= 57):
            d = c - 48
            if base < 10 and not d < base:
                bad()
        elif sand(c >= 128, is_decimal(c)):
            d = decimal_value.apply(c)[0]
            if base < 10 and not d < base:
                bad()
        else:
            bad()
        v = v * base + d
    if prev_us:
        bad()
    return -v if neg else v


def str_of_int(x):
    """str(x) for a SymInt: forks on sign and number of digits."""
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if not isinstance(x, SymInt):
        return str(x)
    neg = False
    if x < 0:
        neg = True
        x = -x
        if not isinstance(x, SymInt):
            return str(-x)
    n = 1
    while not x < 10 ** n:
        n += 1
    ds = []
    for k in range(n - 1, -1, -1):
        if k == n - 1:
            d = x // (10 ** k) if n > 1 else x
        else:
            d = (x // (10 ** k)) % 10
        d = d + 48
        if isinstance(d, SymInt):
            d = core.rebound(d, 48, 57, None, 0)
        ds.append(d)
    return mkstr(([45] if neg else []) + ds)


def hex_of_int(x, upper=False, width=0):
    if not isinstance(x, SymInt):
        return format(x, ('0%d' % width if width else '') + ('X' if upper else 'x'))
    neg = False
    if x < 0:
        neg, x = True, -x
    n = 1
    while not x < 16 ** n:
        n += 1
    n = max(n, width)
    ds = []
    for k in range(n - 1, -1, -1):
        d = (x // 16 ** k) % 16
        ds.append(ite(d < 10, d + 48, d + (55 if upper else 87)) if isinstance(d, SymInt) else ord('%x' % d))
    return mkstr(([45] if neg else []) + ds)
