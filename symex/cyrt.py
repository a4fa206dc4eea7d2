"""C semantics at run time for code translated by cyfront."""
import types

from . import core
from .core import Sym, SymBool, SymInt, ite, is_int, rebound, sand
from .containers import SDict, SSet
from .rt import m_bool, m_isinstance


def _limits(t):
    bits, signed = t[1], t[2]
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def cast(t, v):
    """C conversion of an integer value: wraps."""
    if t[0] != 'int':
        return conv(t, v)
    lo, hi = _limits(t)
    if isinstance(v, SymBool):
        v = v._int()
    if isinstance(v, SymInt):
        if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
            return v
        n = 1 << t[1]
        if v.lo is not None and v.hi is not None and v.lo >= lo - n and v.hi <= hi + n:
            if v.hi > hi:
                v = ite(v > hi, _bound(v - n, lo, hi), _bound(v, lo, hi))
            if v.lo is not None and isinstance(v, SymInt) and v.lo < lo:
                v = ite(v < lo, _bound(v + n, lo, hi), _bound(v, lo, hi))
            return v
        r = v % n
        return ite(r > hi, r - n, r) if t[2] else r
    v = int(v)
    n = 1 << t[1]
    v &= n - 1
    return v - n if v > hi else v


def _bound(v, lo, hi):
    if isinstance(v, SymInt):
        return rebound(v, lo, hi)
    return v


def conv(t, v):
    """Python object -> C variable."""
    k = t[0]
    if k == 'int':
        if isinstance(v, SymBool):
            v = v._int()
        if not is_int(v):
            if hasattr(v, '__index__'):
                v = v.__index__()
            else:
                raise TypeError('an integer is required')
        lo, hi = _limits(t)
        if isinstance(v, SymInt):
            if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
                return v
            if not sand(v >= lo, v <= hi):
                raise OverflowError('value too large to convert to C integer')
            return rebound(v, lo, hi, v.src)
        v = int(v)
        if v < lo or v > hi:
            raise OverflowError("can't convert negative value to unsigned int" if lo == 0 and v < 0
                                else 'value too large to convert to C integer')
        return v
    if k == 'bint':
        return m_bool(v)
    if k == 'float':
        return float(v)
    if k == 'builtin':
        import builtins
        if v is None or m_isinstance(v, getattr(builtins, t[1])):
            return v
        raise TypeError('Expected %s, got %s' % (t[1], type(v).__name__))
    if k == 'mv':
        return acquire(t, v)
    return v


def acquire(t, v):
    from .models import SMemoryView, _FMT
    if v is None:
        return None
    mv = SMemoryView.of(v)
    elem, ndim = t[1], t[2]
    if mv.ndim != ndim:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ndim, mv.ndim))
    size, signed = _FMT[mv.format]
    if elem[0] == 'int' and (size * 8 != elem[1] or bool(signed) != bool(elem[2])):
        raise ValueError('Buffer dtype mismatch')
    return mv


def mv_get(mv, k):
    if mv is None:
        raise TypeError("'NoneType' object is not subscriptable")
    return mv[k]


def conv_cls(c, v):
    if v is None or isinstance(v, c):
        return v
    raise TypeError('Cannot convert %s to %s' % (type(v).__name__, c.__name__))


class _Field:
    def __init__(self, name, default):
        self.name = '_c_' + name
        self.default = default

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return obj.__dict__.get(self.name, self.default)


class field(_Field):
    def __init__(self, name, t):
        _Field.__init__(self, name, 0 if t[0] == 'int' else False if t[0] == 'bint' else 0.0 if t[0] == 'float' else None)
        self.t = t

    def __set__(self, obj, v):
        obj.__dict__[self.name] = conv(self.t, v) if self.t[0] != 'obj' else v


class field_cls(_Field):
    def __init__(self, name, c):
        _Field.__init__(self, name, None)
        self.c = c

    def __set__(self, obj, v):
        obj.__dict__[self.name] = conv_cls(self.c(), v)


def returns(t):
    def deco(f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            r = f(*a, **k)
            return (0 if t[0] == 'int' else False) if r is None else conv(t, r)
        return g
    return deco
