"""Sets and dictionaries that accept symbolic elements and keys.

Instrumented code always gets these classes for its displays, comprehensions
and set()/dict() calls, so that a symbolic key never reaches a native hash.
Invariant: the keys of a dictionary are pairwise distinct on the current path
(decided when a key is inserted); a set maps element -> guard (the condition
under which it is a member).
"""
from . import core
from .core import Sym, SymBool, SymInt, ite, mkbool, sand, snot, sor, is_int


def is_symbolic(x):
    if isinstance(x, (SymInt, SymBool)):
        return True
    from .seqs import SymStr, SymBytes
    if isinstance(x, (SymStr, SymBytes)):
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(is_symbolic(i) for i in x)
    return False


_MISS = object()


class SDict:
    __hash__ = None

    def __init__(self, *a, **kw):
        self._d = {}        # concrete keys
        self._s = []        # [key, value] with symbolic keys
        self._order = None  # insertion order when mixed
        self.update(*a, **kw)

    # -- lookup ----------------------------------------------------------
    def _pairs(self):
        if not self._s:
            return list(self._d.items())
        return [(k, self._d[k]) if not is_symbolic(k) else (k, self._sget(k)) for k in self._order]

    def _sget(self, key):
        for ent in self._s:
            if ent[0] is key:
                return ent[1]
        raise KeyError(key)

    def _find(self, key):
        """('c', key) / ('s', entry) / None, forking on equality."""
        if not is_symbolic(key):
            if key in self._d:
                return ('c', key)
            for ent in self._s:
                if keq(ent[0], key):
                    return ('s', ent)
            return None
        cands = [k for k in self._d if could_equal(key, k)]
        if len(cands) > 1:
            if not sor(*[keq(key, k) for k in cands]):
                cands = []
        for i, k in enumerate(cands):
            if i == len(cands) - 1 and len(cands) > 1:
                return ('c', k)
            if keq(key, k):
                return ('c', k)
        for ent in self._s:
            if ent[0] is key or keq(ent[0], key):
                return ('s', ent)
        return None

    def _lookup(self, key):
        """value of key or _MISS; integer values are merged, not forked."""
        if not is_symbolic(key):
            try:
                return self._d[key]
            except KeyError:
                pass
            if not self._s:
                hash(key)
                return _MISS
        elif not self._s:
            cands = [(k, v) for k, v in self._d.items() if could_equal(key, k)]
            if not cands:
                return _MISS
            if len(cands) > 1 and all(is_int(v) and not isinstance(v, (bool, SymBool)) for _, v in cands):
                if not sor(*[keq(key, k) for k, _ in cands]):
                    return _MISS
                r = cands[-1][1]
                for k, v in cands[:-1]:
                    r = ite(keq(key, k), v, r)
                return r
        f = self._find(key)
        if f is None:
            return _MISS
        return self._d[f[1]] if f[0] == 'c' else f[1][1]

    def contains(self, key):
        if not is_symbolic(key):
            if key in self._d:
                return True
            return sor(*[keq(e[0], key) for e in self._s])
        return sor(*([keq(key, k) for k in self._d if could_equal(key, k)] + [keq(e[0], key) for e in self._s]))

    def __contains__(self, key):
        return bool(self.contains(key))

    def __getitem__(self, key):
        v = self._lookup(key)
        if v is _MISS:
            return self.__missing__(key)
        return v

    def __missing__(self, key):
        raise KeyError(key)

    def get(self, key, default=None):
        v = self._lookup(key)
        return default if v is _MISS else v

    # -- update ----------------------------------------------------------
    def __setitem__(self, key, value):
        if not is_symbolic(key) and not self._s:
            self._d[key] = value
            return
        f = self._find(key)
        if f is None:
            if self._order is None:
                self._order = list(self._d)
            self._order.append(key)
            if is_symbolic(key):
                self._s.append([key, value])
            else:
                self._d[key] = value
        elif f[0] == 'c':
            self._d[f[1]] = value
        else:
            f[1][1] = value

    def __delitem__(self, key):
        f = self._find(key)
        if f is None:
            raise KeyError(key)
        self._del(f)

    def _del(self, f):
        if f[0] == 'c':
            del self._d[f[1]]
            if self._order is not None:
                self._order = [k for k in self._order if is_symbolic(k) or k != f[1]]
        else:
            self._s = [e for e in self._s if e is not f[1]]
            self._order = [k for k in self._order if k is not f[1][0]]

    def setdefault(self, key, default=None):
        v = self._lookup(key)
        if v is _MISS:
            self[key] = default
            return default
        return v

    def pop(self, key, *default):
        f = self._find(key)
        if f is None:
            if default:
                return default[0]
            raise KeyError(key)
        v = self._d[f[1]] if f[0] == 'c' else f[1][1]
        self._del(f)
        return v

    def popitem(self):
        ps = self._pairs()
        if not ps:
            raise KeyError('popitem(): dictionary is empty')
        k, v = ps[-1]
        del self[k]
        return (k, v)

    def clear(self):
        self._d.clear()
        self._s = []
        self._order = None

    def update(self, *a, **kw):
        for src in a:
            if isinstance(src, SDict):
                for k, v in src._pairs():
                    self[k] = v
            elif hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        r._d = dict(self._d)
        r._s = [list(e) for e in self._s]
        r._order = None if self._order is None else list(self._order)
        return r

    __copy__ = copy

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    def keys(self):
        return SKeys(self)

    def values(self):
        return [v for _, v in self._pairs()]

    def items(self):
        return self._pairs()

    def __iter__(self):
        return iter([k for k, _ in self._pairs()])

    def __reversed__(self):
        return reversed([k for k, _ in self._pairs()])

    def __len__(self):
        return len(self._d) + len(self._s)

    def __eq__(self, o):
        if not isinstance(o, (SDict, dict)):
            return False
        if len(self) != len(o):
            return False
        for k, v in self._pairs():
            if k not in o:
                return False
            if not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self._pairs())


class SKeys(list):
    def __init__(self, d):
        list.__init__(self, [k for k, _ in d._pairs()])
        self.d = d

    def __contains__(self, k):
        return k in self.d

    def __and__(self, o):
        return SSet(self) & SSet(o)

    def __or__(self, o):
        return SSet(self) | SSet(o)

    def __sub__(self, o):
        return SSet(self) - SSet(o)


class SDefaultDict(SDict):
    def __init__(self, default_factory=None, *a, **kw):
        self.default_factory = default_factory
        SDict.__init__(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        from .rt import call
        v = call(self.default_factory)
        self[key] = v
        return v


class SSortedDict(SDict):
    """sortedcontainers.SortedDict: iteration in key order."""

    def _pairs(self):
        ks = list(self._d) + [e[0] for e in self._s]
        import functools
        ks.sort(key=functools.cmp_to_key(lambda a, b: -1 if a < b else 1 if b < a else 0))
        return [(k, self._d[k]) if not is_symbolic(k) else (k, self._sget(k)) for k in ks]

    def peekitem(self, index=-1):
        return self._pairs()[index]


def keq(a, b):
    """Equality of two dictionary keys (types as Python compares them)."""
    return a == b


def could_equal(sym, con):
    from .seqs import SymStr, SymBytes
    if isinstance(sym, SymStr):
        if not isinstance(con, str) or len(sym.c) != len(con):
            return False
        for a, b in zip(sym.c, con):
            if isinstance(a, SymInt):
                if (a.lo is not None and ord(b) < a.lo) or (a.hi is not None and ord(b) > a.hi):
                    return False
            elif a != ord(b):
                return False
        return True
    if isinstance(sym, SymBytes):
        return isinstance(con, bytes) and len(sym.c) == len(con)
    if isinstance(sym, (SymInt, SymBool)):
        return isinstance(con, (int, float))
    if isinstance(sym, tuple):
        return isinstance(con, tuple) and len(sym) == len(con)
    return True


class SSet:
    """A set with guarded membership."""

    def __init__(self, it=()):
        self._g = {}        # concrete element -> guard
        self._s = []        # [element, guard] symbolic elements
        if isinstance(it, SSet):
            self._g = dict(it._g)
            self._s = [list(e) for e in it._s]
        else:
            for x in it:
                self.add(x)

    __hash__ = None

    def items_guarded(self):
        return list(self._g.items()) + [tuple(e) for e in self._s]

    def contains(self, x):
        if isinstance(x, (SSet, set, frozenset)):
            return False
        if not is_symbolic(x):
            r = self._g.get(x, False)
            if r is True:
                return True
            return sor(r, *[sand(g, keq(e, x)) for e, g in self._s])
        return sor(*([sand(g, keq(x, k)) for k, g in self._g.items() if could_equal(x, k)]
                     + [sand(g, keq(e, x)) for e, g in self._s]))

    def __contains__(self, x):
        return bool(self.contains(x))

    def add(self, x, guard=True):
        if not is_symbolic(x):
            old = self._g.get(x, False)
            self._g[x] = sor(old, guard)
            return
        c = self.contains(x)
        if c is True:
            return
        if c is False:
            self._s.append([x, guard])
            return
        if not c:
            self._s.append([x, guard])

    def remove(self, x):
        if not self.contains(x):
            raise KeyError(x)
        self.discard(x)

    def discard(self, x):
        if not is_symbolic(x) and not self._s:
            self._g.pop(x, None)
            return
        for k in list(self._g):
            if could_equal(x, k) if is_symbolic(x) else k == x:
                self._g[k] = sand(self._g[k], snot(keq(x, k)))
        for e in self._s:
            e[1] = sand(e[1], snot(keq(e[0], x)))

    def pop(self):
        for k in self:
            self.discard(k)
            return k
        raise KeyError('pop from an empty set')

    def clear(self):
        self._g.clear()
        self._s = []

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def __iter__(self):
        for k, g in self.items_guarded():
            if g is True or (g is not False and g):
                yield k

    def length(self):
        n = 0
        for k, g in self.items_guarded():
            n = n + (1 if g is True else 0 if g is False else ite(g, 1, 0))
        return n

    def __len__(self):
        return int(self.length())

    def nonempty(self):
        return sor(*[g for _, g in self.items_guarded()])

    def __bool__(self):
        return bool(self.nonempty())

    def __and__(self, o):
        if not isinstance(o, (SSet, set, frozenset, SKeys)):
            return NotImplemented
        return self.intersection(o)

    def __rand__(self, o):
        return SSet(o) & self

    def intersection(self, *os):
        r = self
        for o in os:
            if not isinstance(o, SSet):
                o = SSet(o)
            n = SSet()
            for k, g in r.items_guarded():
                gg = sand(g, o.contains(k))
                if gg is not False:
                    if is_symbolic(k):
                        n._s.append([k, gg])
                    else:
                        n._g[k] = gg
            r = n
        return r if r is not self else self.copy()

    def intersection_update(self, *os):
        r = self.intersection(*os)
        self._g, self._s = r._g, r._s

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __or__(self, o):
        if not isinstance(o, (SSet, set, frozenset, SKeys)):
            return NotImplemented
        return self.union(o)

    __ror__ = __or__

    def union(self, *os):
        r = self.copy()
        r.update(*os)
        return r

    def update(self, *os):
        for o in os:
            if isinstance(o, SSet):
                for k, g in o.items_guarded():
                    self.add(k, g)
            else:
                for k in o:
                    self.add(k)

    def __ior__(self, o):
        self.update(o)
        return self

    def __sub__(self, o):
        return self.difference(o)

    def difference(self, *os):
        r = self.copy()
        for o in os:
            if not isinstance(o, SSet):
                o = SSet(o)
            n = SSet()
            for k, g in r.items_guarded():
                gg = sand(g, snot(o.contains(k)))
                if gg is not False:
                    if is_symbolic(k):
                        n._s.append([k, gg])
                    else:
                        n._g[k] = gg
            r = n
        return r

    def difference_update(self, *os):
        r = self.difference(*os)
        self._g, self._s = r._g, r._s

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __xor__(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return (self - o) | (o - self)

    symmetric_difference = __xor__
    __rxor__ = __xor__

    def __rsub__(self, o):
        return SSet(o) - self

    def symmetric_difference_update(self, o):
        r = self ^ SSet(o)
        self.clear()
        self.update(r)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def issubset(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return sand(*[sor(snot(g), o.contains(k)) for k, g in self.items_guarded()])

    def issuperset(self, o):
        return (o if isinstance(o, SSet) else SSet(o)).issubset(self)

    def isdisjoint(self, o):
        return snot((self & (o if isinstance(o, SSet) else SSet(o))).nonempty())

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return sand(self.issubset(o), snot(self == o))

    def __gt__(self, o):
        return sand(self.issuperset(o), snot(self == o))

    def __eq__(self, o):
        if not isinstance(o, (SSet, set, frozenset)):
            return False
        o = o if isinstance(o, SSet) else SSet(o)
        return sand(self.issubset(o), o.issubset(self))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __repr__(self):
        return '{%s}' % ', '.join(repr(k) for k, g in self.items_guarded() if g is not False)


class SFrozenSet(SSet):
    def __hash__(self):
        return hash(frozenset(self))
