"""Runtime called by instrumented code."""
import builtins
import collections
import enum
import functools
import heapq
import itertools
import bisect
import operator
import types

from . import core, seqs, containers
from .core import Sym, SymBool, SymInt, Control, ite, is_int, mkbool, sand, snot, sor, bexpr
from .seqs import SymStr, SymBytes, SByteArray, mkstr, mkbytes, chars, octets, str_of_int
from .containers import SDict, SSet, SFrozenSet, SKeys, is_symbolic

BuiltinFn = types.BuiltinFunctionType
MethodDescr = types.MethodDescriptorType
WrapperDescr = types.WrapperDescriptorType
MethodWrapper = types.MethodWrapperType
ClassMethodDescr = types.ClassMethodDescriptorType

SYMCLS = {SymInt: int, SymBool: bool, SymStr: str, SymBytes: bytes, SDict: dict, SSet: set,
          SFrozenSet: frozenset, SByteArray: bytearray}


def deep_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (SDict, SSet)):
        return True
    return False


# ------------------------------------------------------------- subscripts --
def seq_index(seq, k, msg):
    """seq[k] for a tuple/list and a possibly symbolic index."""
    if not isinstance(k, Sym):
        try:
            return seq[k]
        except IndexError:
            raise IndexError(msg) from None
    if isinstance(k, SymBool):
        k = k._int()
    if not isinstance(k, SymInt):
        raise TypeError('indices must be integers or slices, not %s' % seqs.pytype(k).__name__)
    n = len(seq)
    if not sand(k >= -n, k < n):
        raise IndexError(msg)
    lo = -n if k.lo is None else max(-n, k.lo)
    hi = n - 1 if k.hi is None else min(n - 1, k.hi)
    cand = list(range(lo, hi + 1))
    if len(cand) <= 64 and all(is_int(seq[i]) and not isinstance(seq[i], (bool, SymBool)) for i in cand):
        r = seq[cand[-1]]
        for i in reversed(cand[:-1]):
            r = ite(k == i, seq[i], r)
        return r
    if len(cand) <= 64 and all(isinstance(seq[i], (bool, SymBool)) for i in cand):
        r = seq[cand[-1]]
        for i in reversed(cand[:-1]):
            r = ite(k == i, seq[i], r)
        return r
    first = seq[cand[0]] if cand else None
    if all(seq[i] is first for i in cand):
        return first
    return seq[int(k)]


def _slice_conc(k):
    if isinstance(k, slice) and (isinstance(k.start, Sym) or isinstance(k.stop, Sym) or isinstance(k.step, Sym)):
        f = lambda x: int(x) if isinstance(x, Sym) else x
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def getitem(o, k):
    t = type(k)
    if t is SymInt or t is SymBool:
        if type(o) in (list, tuple):
            return seq_index(o, k, '%s index out of range' % type(o).__name__)
        if isinstance(o, str):
            return mkstr((seq_index(tuple(map(ord, o)), k, 'string index out of range'),))
        if isinstance(o, bytes):
            return seq_index(tuple(o), k, 'index out of range')
    elif t is slice:
        if not isinstance(o, Sym):
            k = _slice_conc(k)
    if isinstance(o, dict) and is_symbolic(k):
        return _native_dict_lookup(o, k)
    if isinstance(o, enum.EnumMeta) and is_symbolic(k):
        d = SDict.__new__(SDict)
        d._d, d._s, d._order = o.__members__, [], None
        f = d._find(k)
        if f is None:
            raise KeyError(k)
        return o[f[1]]
    return o[k]


def _native_dict_lookup(o, k, default=containers._MISS):
    d = SDict.__new__(SDict)
    d._d, d._s, d._order = o, [], None
    v = d._lookup(k)
    if v is containers._MISS:
        if default is not containers._MISS:
            return default
        if hasattr(type(o), '__missing__'):
            return o[k]
        raise KeyError(k)
    return v


def setitem(o, k, v):
    if isinstance(o, dict) and is_symbolic(k):
        for q in o:
            if containers.could_equal(k, q) and k == q:
                o[q] = v
                return
        raise core.Unsupported('symbolic key stored in a native dict')
    o[_slice_conc(k) if type(k) is slice and not isinstance(o, Sym) else k] = v


# -------------------------------------------------------------- operators --
def contains(x, o):
    """x in o, merged into one condition where possible."""
    if isinstance(o, (SSet, SDict, SymStr, SymBytes, SByteArray)):
        return o.contains(x)
    if isinstance(o, str):
        if isinstance(x, SymStr):
            n = len(x.c)
            return sor(*[x == o[i:i + n] for i in range(len(o) - n + 1)])
        return x in o
    if isinstance(o, (list, tuple, SKeys)):
        if type(o) is SKeys:
            return o.d.contains(x)
        if is_symbolic(x) or any(is_symbolic(i) for i in o):
            out = []
            for i in o:
                if i is x:
                    return True
                r = (i == x)
                if r is True:
                    out.append(True)
                    break
                out.append(r)
            return sor(*out)
        return x in o
    if isinstance(o, (set, frozenset)):
        if is_symbolic(x):
            return sor(*[x == i for i in o if containers.could_equal(x, i)])
        return x in o
    if isinstance(o, dict) and is_symbolic(x):
        return sor(*[x == i for i in o if containers.could_equal(x, i)])
    if isinstance(o, bytes) and isinstance(x, SymInt):
        return sor(*[x == i for i in o])
    if isinstance(o, range) and isinstance(x, SymInt) and o.step == 1:
        return sand(x >= o.start, x < o.stop)
    return x in o


def notin(x, o):
    return snot(contains(x, o))


def not_(x):
    if isinstance(x, SymBool):
        return snot(x)
    if isinstance(x, SSet):
        return snot(x.nonempty())
    return not x


def chain_and(*fs):
    """a < b < c with cheap operands: merged."""
    return sand(*fs)


def isop(a, b):
    if isinstance(a, SymBool) and (b is True or b is False):
        return a if b else snot(a)
    if isinstance(b, SymBool) and (a is True or a is False):
        return b if a else snot(b)
    return a is b


# ------------------------------------------------------------- formatting --
def to_str(x):
    if isinstance(x, (SymStr, str)):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return str_of_int(x)
    f = getattr(type(x), '__str__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, (list, tuple, SDict, SSet)) and deep_sym(x):
        return to_repr(x)
    return str(x)


def to_repr(x):
    if isinstance(x, (SymInt, SymBool)):
        return str_of_int(x)
    if type(x) is list:
        return join(', ', [to_repr(i) for i in x], '[', ']')
    if type(x) is tuple:
        return join(', ', [to_repr(i) for i in x], '(', ',)' if len(x) == 1 else ')')
    return repr(x)


def join(sep, parts, a='', b=''):
    out = list(chars(a))
    for i, p in enumerate(parts):
        if i:
            out.extend(chars(sep))
        out.extend(chars(p))
    out.extend(chars(b))
    return mkstr(out)


def format_value(x, conv, spec):
    if conv == 's' or conv == ord('s'):
        x = to_str(x)
    elif conv in ('r', 'a', ord('r'), ord('a')):
        x = to_repr(x)
    if not isinstance(x, Sym) and not isinstance(spec, Sym):
        f = getattr(type(x), '__str__', None)
        if not spec and isinstance(f, types.FunctionType) and type(x).__format__ is object.__format__:
            return to_str(x)
        if not spec and isinstance(x, (list, tuple, SDict, SSet)) and deep_sym(x):
            return to_str(x)
        return format(x, spec)
    if isinstance(spec, Sym):
        spec = spec.concrete()
    if not spec or spec in ('d', 's'):
        return to_str(x)
    if isinstance(x, (SymInt, SymBool)):
        x = x._int() if isinstance(x, SymBool) else x
        body, t = (spec[:-1], spec[-1]) if spec[-1].isalpha() else (spec, 'd')
        if body == '' or (body[0] == '0' and body.isdigit()):
            w = int(body) if body else 0
            if t in 'xX':
                return seqs.hex_of_int(x, t == 'X', w)
            if t == 'd':
                s = str_of_int(x)
                return SymStr(chars(s)).zfill(w) if w else s
        if t == 'c' and not body:
            return mkstr((x,))
        return format(int(x), spec)
    return format(x.concrete() if hasattr(x, 'concrete') else x, spec)


def fstring(*parts):
    return join('', parts)


def str_format(fmt, a, kw):
    import string
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    out = []
    auto = 0
    fm = string.Formatter()
    for lit, field, spec, conv in fm.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        name, rest = _split_field(field)
        if name == '':
            obj = a[auto]
            auto += 1
        elif name.isdigit():
            obj = a[int(name)]
        else:
            obj = kw[name]
        for is_attr, nm in rest:
            obj = getattr(obj, nm) if is_attr else getitem(obj, nm)
        if spec and '{' in spec:
            inner = []
            for l2, f2, s2, c2 in fm.parse(spec):
                inner.append(l2)
                if f2 is not None:
                    if f2 == '':
                        o2 = a[auto]
                        auto += 1
                    elif f2.isdigit():
                        o2 = a[int(f2)]
                    else:
                        o2 = kw[f2]
                    inner.append(to_str(o2))
            spec = join('', inner)
        out.append(format_value(obj, conv, spec))
    return join('', out)


def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return str(first), list(rest)


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        if not deep_sym(b) and not isinstance(a, Sym):
            return a % b
        return str_mod(a, b)
    return a % b


def str_mod(fmt, args):
    import re
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    out, pos, n = [], 0, 0
    mapping = args if isinstance(args, (dict, SDict)) else None
    if not isinstance(args, tuple):
        args = (args,)
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        if m.group(1) is not None:
            x = mapping[m.group(1)]
        else:
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            x = args[n]
            n += 1
        t = m.group(5)
        if t in 'sra':
            s = to_str(x) if t == 's' else to_repr(x)
            if m.group(4):
                s = s[:int(m.group(4))]
        elif t in 'di':
            if isinstance(x, (SymInt, SymBool)):
                s = str_of_int(x if isinstance(x, SymInt) else x._int())
            else:
                if not isinstance(x, (int, float)):
                    raise TypeError('%d format: a real number is required')
                s = str(int(x))
        elif t in 'xX' and isinstance(x, SymInt):
            s = seqs.hex_of_int(x, t == 'X')
        elif t == 'c' and isinstance(x, (SymInt, SymStr)):
            s = mkstr((x,)) if isinstance(x, SymInt) else x
        else:
            s = ('%' + t) % (int(x) if isinstance(x, SymInt) else x)
        if m.group(3):
            w = int(m.group(3))
            ss = SymStr(chars(s))
            if '-' in (m.group(2) or ''):
                s = ss.ljust(w)
            elif '0' in (m.group(2) or '') and t in 'dixX':
                s = ss.zfill(w)
            else:
                s = ss.rjust(w)
        out.append(s)
    if mapping is None and n < len(args):
        raise TypeError('not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return join('', out)


# ------------------------------------------------------- models of builtins --
def m_len(x):
    if isinstance(x, SSet):
        return x.length()
    return len(x)


def m_ord(x):
    if isinstance(x, SymStr):
        if len(x.c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x.c))
        return x.c[0]
    if isinstance(x, SymBytes):
        return x.c[0]
    return ord(x)


def m_chr(x):
    if isinstance(x, SymInt):
        if not sand(x >= 0, x <= 0x10FFFF):
            if not sand(x >= -0x80000000, x <= 0x7FFFFFFF):
                raise OverflowError('Python int too large to convert to C int')
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr((core.rebound(x, 0, 0x10FFFF, x.src, 0),))
    return chr(x)


def m_int(x=0, *base, **kw):
    if 'base' in kw:
        base = (kw['base'],)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymStr):
        return seqs.int_of_str(x, *base)
    if isinstance(x, (SymBytes, SByteArray)):
        return seqs.int_of_str(mkstr(x.c), *base)
    if base:
        return int(x, int(base[0]))
    return int(x)


def m_str(*a, **kw):
    if len(a) == 1 and not kw:
        return to_str(a[0])
    if len(a) >= 2 or kw:
        b = a[0] if a else kw.get('object')
        return seqs.decode(octets(b), *(a[1:]), **{k: v for k, v in kw.items() if k != 'object'})
    return str(*a)


def m_repr(x):
    return to_repr(x)


def m_bytes(*a, **kw):
    if not a:
        return b''
    x = a[0]
    if isinstance(x, (str, SymStr)):
        return seqs.encode(x, *a[1:], **kw)
    if is_int(x):
        return bytes(int(x))
    try:
        return mkbytes(octets(x))
    except TypeError:
        pass
    f = getattr(x, '__bytes__', None)
    if f is not None:
        return f()
    return mkbytes([seqs.byte_value(v) for v in x])


def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SSet):
        return x.nonempty()
    return bool(x)


def m_float(x=0.0):
    if isinstance(x, SymStr):
        return float(x.concrete())
    return float(x)


def m_isinstance(x, c):
    if isinstance(c, tuple):
        return any(m_isinstance(x, i) for i in c)
    t = SYMCLS.get(type(x))
    if t is not None:
        if c in SYMCLS:
            return isinstance(x, c)
        if isinstance(c, type):
            return issubclass(t, c)
        return isinstance(x, c)
    if c in _BASEMAP and isinstance(x, _BASEMAP[c]):
        return True
    return isinstance(x, c)


def m_issubclass(x, c):
    return issubclass(SYMCLS.get(x, x), c)


def m_type(*a):
    if len(a) == 1:
        return SYMCLS.get(type(a[0]), type(a[0]))
    return type(*a)


def m_abs(x):
    return abs(x)


def m_min(*a, **kw):
    return _minmax(a, kw, True)


def m_max(*a, **kw):
    return _minmax(a, kw, False)


def _minmax(a, kw, is_min):
    key = kw.get('key')
    seq = list(a[0]) if len(a) == 1 else list(a)
    if not seq:
        if 'default' in kw:
            return kw['default']
        raise ValueError('%s() iterable argument is empty' % ('min' if is_min else 'max'))
    if key is None and all(is_int(x) and not isinstance(x, (bool, SymBool)) for x in seq):
        r = seq[0]
        for x in seq[1:]:
            r = ite((x < r) if is_min else (x > r), x, r)
        return r
    ks = seq if key is None else [call(key, x) for x in seq]
    bi = 0
    for i in range(1, len(seq)):
        if (ks[i] < ks[bi]) if is_min else (ks[i] > ks[bi]):
            bi = i
    return seq[bi]


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + (x._int() if isinstance(x, SymBool) else x)
    return r


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_range(*a):
    return range(*[int(x) if isinstance(x, Sym) else x for x in a])


def m_hash(x):
    return hash(x)


def m_divmod(a, b):
    return (a // b, a % b)


def m_pow(a, b, *m):
    return pow(a, b, *m)


def m_hex(x):
    if isinstance(x, SymInt):
        if x < 0:
            return join('', ['-0x', seqs.hex_of_int(-x)])
        return join('', ['0x', seqs.hex_of_int(x)])
    return hex(x)


def m_format(x, spec=''):
    return format_value(x, None, spec)


def m_memoryview(x):
    from .models import SMemoryView
    return SMemoryView.of(x)


def m_map(f, *its):
    f = wrapfn(f)
    for args in zip(*[iter(i) for i in its]):
        yield f(*args)


def m_filter(f, it):
    f = wrapfn(f) if f is not None else (lambda x: x)
    for x in it:
        if f(x):
            yield x


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrapfn(key) if key is not None else None, reverse=bool(reverse))


def m_reduce(f, it, *init):
    return functools.reduce(wrapfn(f), it, *init)


def m_print(*a, **kw):
    kw = dict(kw)
    f = kw.get('file')
    sys = builtins.__import__('sys')
    if f is None:
        f = sys.stdout
    if f in (sys.stderr, sys.__stderr__, sys.__stdout__):
        return None
    sep = kw.get('sep') or ' '
    end = '\n' if kw.get('end') is None else kw['end']
    f.write(join(sep, [to_str(x) for x in a], '', end))


def attributes(o):
    """dir(), with what an enumeration hides."""
    out = dict.fromkeys(dir(o))
    for c in type(o).__mro__ + (o.__mro__ if isinstance(o, type) else ()):
        out.update(dict.fromkeys(vars(c)))
    return [n for n in out if hasattr(o, n)]


def m_getattr(o, name, *d):
    if isinstance(name, SymStr):
        cands = [n for n in attributes(o) if containers.could_equal(name, n)]
        for n in cands:
            if name == n:
                return getattr(o, n, *d)
        if d:
            return d[0]
        raise AttributeError('no attribute')
    return getattr(o, name, *d)


def m_hasattr(o, name):
    if isinstance(name, SymStr):
        return sor(*[name == n for n in attributes(o) if containers.could_equal(name, n)])
    return hasattr(o, name)


def m_open(*a, **kw):
    from . import models
    return models.vfs_open(*a, **kw)


def wrapfn(f):
    if isinstance(f, (types.FunctionType, types.MethodType)) or f is None:
        return f
    return lambda *a, **k: call(f, *a, **k)


def m_from_bytes(bs, byteorder='big', *, signed=False):
    try:
        o = octets(bs)
    except TypeError:
        o = [seqs.byte_value(x) for x in bs]
    if isinstance(byteorder, SymStr):
        byteorder = byteorder.concrete()
    return seqs.int_from(o, byteorder, bool(signed))


def m_set(it=()):
    return SSet(it)


def m_frozenset(it=()):
    return SFrozenSet(it)


def m_dict(*a, **kw):
    return SDict(*a, **kw)


def m_iter(*a):
    return iter(*a)


def m_list(*a):
    return list(*a)


FUNCS = {
    len: m_len, ord: m_ord, chr: m_chr, isinstance: m_isinstance, issubclass: m_issubclass,
    min: m_min, max: m_max, sum: m_sum, any: m_any, all: m_all, abs: m_abs,
    sorted: m_sorted, divmod: m_divmod, pow: m_pow, hex: m_hex, format: m_format,
    repr: m_repr, open: m_open, getattr: m_getattr, hasattr: m_hasattr, print: m_print,
    functools.reduce: m_reduce,
}
TYPES = {
    int: m_int, str: m_str, bytes: m_bytes, bool: m_bool, float: m_float, type: m_type,
    set: m_set, frozenset: m_frozenset, dict: m_dict, bytearray: SByteArray, range: m_range,
    memoryview: m_memoryview, map: m_map, filter: m_filter,
}
_BASEMAP = {dict: SDict, set: SSet, frozenset: SFrozenSet, bytearray: SByteArray}

NATIVE_OK = {
    enumerate, zip, list, tuple, reversed, slice, object, property, staticmethod, classmethod,
    itertools.chain, itertools.islice, itertools.product, itertools.repeat, itertools.count,
    itertools.zip_longest, itertools.combinations, itertools.permutations, itertools.accumulate,
    itertools.takewhile, itertools.dropwhile, itertools.groupby, itertools.starmap, itertools.cycle,
    collections.deque, iter, next, id, callable, setattr, delattr, vars, dir, globals, locals,
    heapq.heappush, heapq.heappop, heapq.heapify, heapq.heappushpop, heapq.heapreplace,
    bisect.bisect_left, bisect.bisect_right, bisect.insort_left, bisect.insort_right,
    functools.partial, functools.cmp_to_key,
}
WRAPPED_NATIVE = {itertools.accumulate, itertools.takewhile, itertools.dropwhile, itertools.groupby,
                  itertools.starmap, functools.partial, functools.cmp_to_key}
_OPER = {getattr(operator, n) for n in dir(operator) if not n.startswith('__') and callable(getattr(operator, n))}


def _call_unbound(objcls, name, self, a, kw):
    """A method of a builtin class on self where something is symbolic."""
    if objcls is str:
        s = self
        if name == 'format':
            return str_format(s, a, kw)
        if name == '__mod__':
            return str_mod(s, *a)
        if name == 'join':
            parts = list(a[0])
            if not deep_sym(parts) and not isinstance(s, Sym):
                return s.join(parts)
            return join(s, parts)
        if isinstance(s, str):
            s = SymStr(tuple(map(ord, s)))
        return getattr(s, name)(*a, **kw)
    if objcls in (bytes, bytearray):
        s = self
        if isinstance(s, (bytes, bytearray)):
            s = SymBytes(tuple(s))
        return getattr(s, name)(*a, **kw)
    if objcls is int:
        if isinstance(self, Sym):
            return getattr(self, name)(*a, **kw)
        return getattr(int, name)(self, *[int(x) if isinstance(x, Sym) else x for x in a],
                                  **{k: bool(v) if isinstance(v, SymBool) else v for k, v in kw.items()})
    return NotImplemented


def call(f, *a, **kw):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        return f(*a, **kw)
    if t is BuiltinFn:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            try:
                m = FUNCS.get(f)
            except TypeError:
                m = None
            if m is not None:
                return m(*a, **kw)
            if not (deep_sym(a) or deep_sym(kw)):
                return f(*a, **kw)
            if f in NATIVE_OK or f in _OPER:
                if f in WRAPPED_NATIVE:
                    a = tuple(wrapfn(x) if callable(x) and not isinstance(x, Sym) else x for x in a)
                return f(*a, **kw)
            return _fallback(f, a, kw)
        ts = type(s)
        if isinstance(s, type):
            n = f.__name__
            if n == 'from_bytes' and issubclass(s, int):
                return m_from_bytes(*a, **kw)
            if s is dict and n == 'fromkeys':
                return SDict.fromkeys(*a)
            if n == '__new__' or not (deep_sym(a) or deep_sym(kw)):
                return f(*a, **kw)
            return _fallback(f, a, kw)
        if ts is list:
            if f.__name__ == 'sort' and kw.get('key') is not None:
                kw = dict(kw, key=wrapfn(kw['key']))
            elif f.__name__ == 'index' and a and (is_symbolic(a[0]) or deep_sym(s, 1)):
                return _list_index(s, *a)
            return f(*a, **kw)
        if ts is str or ts is bytes or ts is int or ts is bytearray:
            if ts is str and f.__name__ == 'join' and a:
                parts = a[0] if type(a[0]) in (list, tuple) else list(a[0])
                if any(isinstance(p, Sym) for p in parts):
                    return join(s, parts)
                return f(parts)
            if ts is bytes and f.__name__ == 'join' and a:
                return SymBytes(tuple(s)).join(list(a[0]))
            if deep_sym(a) or deep_sym(kw):
                r = _call_unbound(ts, f.__name__, s, a, kw)
                if r is not NotImplemented:
                    return r
            elif ts is str and f.__name__ == 'format':
                return str_format(s, a, kw) if _custom_str(a, kw) else f(*a, **kw)
            return f(*a, **kw)
        if ts is dict and a and is_symbolic(a[0]) and f.__name__ in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
            if f.__name__ == 'get':
                return _native_dict_lookup(s, a[0], a[1] if len(a) > 1 else None)
            if f.__name__ == '__getitem__':
                return _native_dict_lookup(s, a[0])
            if f.__name__ == '__contains__':
                return contains(a[0], s)
            for q in list(s):
                if containers.could_equal(a[0], q) and a[0] == q:
                    return f(q, *a[1:])
            raise core.Unsupported('native dict.%s with a symbolic key' % f.__name__)
        if isinstance(s, (set, frozenset)) and deep_sym(a):
            return getattr(SSet(s), f.__name__)(*a)
        return f(*a, **kw)
    if isinstance(f, type):
        m = TYPES.get(f)
        if m is not None:
            return m(*a, **kw)
        if f in NATIVE_OK and f in WRAPPED_NATIVE:
            a = tuple(wrapfn(x) if callable(x) and not isinstance(x, Sym) else x for x in a)
        if f in _CONC_TYPES and deep_sym(a):
            return _fallback(f, a, kw)
        return f(*a, **kw)
    if t is MethodDescr or t is WrapperDescr:
        if a and (deep_sym(a) or deep_sym(kw)):
            r = _call_unbound(f.__objclass__, f.__name__, a[0], a[1:], kw)
            if r is not NotImplemented:
                return r
            for c, s in SYMCLS.items():
                if s is f.__objclass__ and isinstance(a[0], c):
                    return getattr(a[0], f.__name__)(*a[1:], **kw)
        return f(*a, **kw)
    return f(*a, **kw)


import decimal
import fractions
import pathlib
_CONC_TYPES = {decimal.Decimal, fractions.Fraction, pathlib.Path, pathlib.PurePath, pathlib.PosixPath, complex}


def _list_index(s, x, start=0, stop=None):
    n = len(s)
    start, stop, _ = slice(int(start), None if stop is None else int(stop)).indices(n)
    for i in range(start, stop):
        if s[i] is x or s[i] == x:
            return i
    raise ValueError('x not in list')


def _custom_str(a, kw):
    return any(isinstance(getattr(type(x), '__str__', None), types.FunctionType)
               or isinstance(x, (list, tuple)) and deep_sym(x) for x in list(a) + list(kw.values()))


def concretise(x):
    if isinstance(x, (SymInt,)):
        return int(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (SymStr, SymBytes, SByteArray)):
        return x.concrete()
    if isinstance(x, (list, tuple)):
        return type(x)(concretise(i) for i in x)
    if isinstance(x, SDict):
        return {concretise(k): concretise(v) for k, v in x.items()}
    if isinstance(x, SSet):
        return {concretise(k) for k in x}
    return x


def _fallback(f, a, kw):
    """An unmodelled native function: fork over the values of its arguments."""
    core.E.partial.add('native %s: arguments enumerated' % getattr(f, '__qualname__', f))
    old = core.E.concretise_cap
    core.E.concretise_cap = 6
    try:
        a = [concretise(x) for x in a]
        kw = {k: concretise(v) for k, v in kw.items()}
    finally:
        core.E.concretise_cap = old
    return f(*a, **kw)


def mkdict(*kvs):
    d = SDict()
    i = 0
    while i < len(kvs):
        if kvs[i] is UNPACK:
            d.update(kvs[i + 1])
        else:
            d[kvs[i]] = kvs[i + 1]
        i += 2
    return d


class _Unpack:
    pass


UNPACK = _Unpack()


def mkset(*xs):
    return SSet(xs)


def dictcomp(pairs):
    return SDict(pairs)


def setcomp(it):
    return SSet(it)


def base(c):
    try:
        return _BASEMAP.get(c, c)
    except TypeError:
        return c


def base_exc():
    """`except BaseException` must not catch the engine's own exceptions."""
    return (Exception, SystemExit, KeyboardInterrupt, GeneratorExit)


mkslice = slice


def _speculate(f):
    """Evaluate a side-effect free expression without taking decisions.

    Returns (ok, value); not ok when it raised or would have to fork.
    """
    E = core.E
    E.nofork += 1
    try:
        return True, f()
    except core.NoFork:
        return False, None
    except Exception:
        return False, None
    finally:
        E.nofork -= 1


def and_(a, f):
    if type(a) is SymBool:
        ok, b = _speculate(f)
        if ok and (b is True or b is False or type(b) is SymBool):
            return sand(a, b)
    return a and f()


def or_(a, f):
    if type(a) is SymBool:
        ok, b = _speculate(f)
        if ok and (b is True or b is False or type(b) is SymBool):
            return sor(a, b)
    return a or f()


def ifexp(c, f, g):
    if type(c) is SymBool:
        ok, a = _speculate(f)
        if ok and is_int(a):
            ok, b = _speculate(g)
            if ok and is_int(b) and isinstance(a, (bool, SymBool)) == isinstance(b, (bool, SymBool)):
                return ite(c, a, b)
    return f() if c else g()


def enter(name):
    core.E.functions.add(name)


def tick():
    E = core.E
    E.steps += 1
    if E.steps > E.steps_limit:
        raise core.StepLimit()
