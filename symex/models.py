"""Pure Python models of the library modules SudachiPy uses.

They follow the documented behaviour of CPython 3.12 on symbolic data; on
concrete data they are exercised against the real modules by
`selftest.py`.
"""
import builtins
import io as _io
import json as _json
import os as _os
import sys as _sys
import types

from . import core, seqs
from .core import Sym, SymBool, SymInt, ite, is_int, sand, snot, sor
from .seqs import (SymStr, SymBytes, SByteArray, mkstr, mkbytes, chars, octets, encode, decode,
                   int_from, byte_value)
from .containers import SDict, SSet, SDefaultDict, SSortedDict, is_symbolic


# --------------------------------------------------------------------- VFS --
class VFS:
    """Files of the current path: name -> list of octets or text chars."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}        # path -> list of octets
        self.texts = {}        # path -> SymStr/str   (text not yet encoded)
        self.json = []         # the symbolic parts of JSON texts, by number
        self.fds = {}
        self.nfd = 1000
        self.cwd = None        # where relative names lead to

    def put_bytes(self, path, data):
        self.files[path] = list(octets(data))
        self.texts.pop(path, None)

    def put_text(self, path, text):
        self.texts[path] = text
        self.files.pop(path, None)

    def put_json(self, path, obj):
        '''the text of a JSON file: its symbolic parts stand as numbered marks, which json.loads takes back'''
        def plain(o):
            if isinstance(o, (dict, SDict)):
                return {(k if isinstance(k, str) else plain(k)): plain(v) for k, v in o.items()}
            if isinstance(o, (list, tuple)):
                return [plain(v) for v in o]
            if o is None or isinstance(o, (str, int, float)):
                return o
            self.json.append(o)
            return '@@symbolic-%d@@' % (len(self.json) - 1)
        self.put_text(path, _json.dumps(plain(obj)))

    def exists(self, path):
        return path in self.files or path in self.texts

    def octets(self, path):
        if path in self.texts:
            self.files[path] = list(octets(encode(self.texts.pop(path), 'utf-8')))
        return self.files[path]

    def real(self, path):
        with builtins.open(path, 'rb') as f:
            return f.read()


FS = VFS()


def _path(p):
    if isinstance(p, SymStr):
        # a symbolic path: which known file is it?
        for q in list(FS.files) + list(FS.texts):
            if p == q:
                return q
        return p.concrete()
    if isinstance(p, SPath):
        return _path(p.s)
    return _here(_os.fspath(p)) if not isinstance(p, int) else p


def _here(p):
    if FS.cwd is not None and isinstance(p, str) and not p.startswith('/'):
        return FS.cwd + '/' + p
    return p


def vfs_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    path = _path(file)
    if isinstance(mode, Sym):
        mode = mode.concrete()
    if path == _os.devnull:
        return StringIO() if 'b' not in mode else BytesIO()
    if 'w' in mode or 'x' in mode:
        FS.texts.pop(path, None)
        FS.files[path] = []
        return BinFile(path, True, '+' in mode) if 'b' in mode else TextOut(path, encoding)
    if 'a' in mode:
        data = FS.octets(path) if FS.exists(path) else FS.files.setdefault(path, [])
        if 'b' in mode:
            f = BinFile(path, True)
            f.seek(0, 2)
            return f
        return TextOut(path, encoding)
    if not FS.exists(path):
        if _os.path.exists(path) and _os.path.isfile(path):
            FS.files[path] = list(FS.real(path))
        else:
            raise FileNotFoundError(2, 'No such file or directory', path)
    if 'b' in mode:
        return BinFile(path, '+' in mode)
    if path in FS.texts and _utf8(encoding):
        text = FS.texts[path]
    else:
        text = decode(FS.octets(path), encoding or 'utf-8', errors or 'strict')
    f = TextIn(universal(text) if newline is None else text)
    f.name = path
    f.mode = mode
    return f


def _utf8(e):
    return e is None or seqs._codec(e) == 'utf-8'


def universal(text):
    """newline translation of text files"""
    cs = chars(text)
    out = []
    i = 0
    while i < len(cs):
        if cs[i] == 13:
            if i + 1 < len(cs) and cs[i + 1] == 10:
                i += 1
            out.append(10)
        else:
            out.append(cs[i])
        i += 1
    return mkstr(out)


class _Closable:
    closed = False

    def close(self):
        self.closed = True

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def flush(self):
        pass

    def isatty(self):
        return False

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True


class _ByteStream(_Closable):
    """self._data: list of octets, self._pos"""

    def _buf(self):
        return self._data

    def tell(self):
        self._open()
        return self._pos

    def seek(self, pos, whence=0):
        self._open()
        if isinstance(pos, SymInt):
            pos = int(pos)
        if not is_int(pos):
            raise TypeError('integer argument expected')
        if whence == 0:
            if pos < 0:
                raise ValueError('negative seek value %r' % (pos,))
            self._pos = pos
        elif whence == 1:
            self._pos = max(0, self._pos + pos)
        else:
            self._pos = max(0, len(self._buf()) + pos)
        return self._pos

    def read(self, n=-1):
        self._open()
        b = self._buf()
        n = -1 if n is None else int(n)
        end = len(b) if n < 0 else min(len(b), self._pos + n)
        r = b[self._pos:end]
        self._pos = max(self._pos, end)
        return mkbytes(r)

    read1 = read

    def readinto(self, target):
        r = self.read(len(target))
        target[:len(r)] = r
        return len(r)

    def readline(self, limit=-1):
        b = self._buf()
        i = self._pos
        while i < len(b):
            i += 1
            if b[i - 1] == 10:
                break
        r = b[self._pos:i]
        self._pos = i
        return mkbytes(r)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def write(self, data):
        self._open()
        if isinstance(data, (str, SymStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        o = octets(data)
        b = self._buf()
        p = self._pos
        if o:
            if p > len(b):
                b.extend([0] * (p - len(b)))
            b[p:p + len(o)] = list(o)
        self._pos = p + len(o)
        return len(o)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def truncate(self, size=None):
        self._open()
        size = self._pos if size is None else int(size)
        b = self._buf()
        if size < 0:
            raise ValueError('negative size value %d' % size)
        del b[size:]
        return size


class BytesIO(_ByteStream):
    def __init__(self, initial_bytes=b''):
        self._data = list(octets(initial_bytes or b''))
        self._pos = 0

    def getvalue(self):
        self._open()
        return mkbytes(self._data)

    def getbuffer(self):
        return SMemoryView(self._data, False)


class BinFile(_ByteStream):
    def __init__(self, path, writable, plus=False):
        self.name = path
        self._pos = 0
        self._w = writable
        FS.octets(path)

    def _buf(self):
        return FS.octets(self.name)

    def write(self, data):
        if not self._w:
            raise _io.UnsupportedOperation('write')
        return _ByteStream.write(self, data)

    def truncate(self, size=None):
        b = self._buf()
        size = self._pos if size is None else int(size)
        if size > len(b):
            b.extend([0] * (size - len(b)))
        else:
            del b[size:]
        return size

    def fileno(self):
        self._open()
        FS.nfd += 1
        FS.fds[FS.nfd] = self.name
        return FS.nfd


class _TextStream(_Closable):
    def tell(self):
        self._open()
        return self._pos

    def seek(self, pos, whence=0):
        self._open()
        pos = int(pos)
        if whence == 0:
            if pos < 0:
                raise ValueError('Negative seek position %d' % pos)
            self._pos = pos
        elif whence == 2:
            self._pos = len(self._data)
        return self._pos

    def read(self, n=-1):
        self._open()
        n = -1 if n is None else int(n)
        end = len(self._data) if n < 0 else min(len(self._data), self._pos + n)
        r = self._data[self._pos:end]
        self._pos = max(self._pos, end)
        return mkstr(r)

    def readline(self, limit=-1):
        self._open()
        i = self._pos
        n = len(self._data)
        while i < n:
            i += 1
            if self._data[i - 1] == 10:
                break
        r = self._data[self._pos:i]
        self._pos = max(self._pos, i)
        return mkstr(r)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(l):
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def write(self, s):
        self._open()
        if not isinstance(s, (str, SymStr)):
            raise TypeError("string argument expected, got '%s'" % seqs.pytype(s).__name__)
        c = chars(s)
        if c:
            if self._pos > len(self._data):
                self._data.extend([0] * (self._pos - len(self._data)))
            self._data[self._pos:self._pos + len(c)] = list(c)
            self._pos += len(c)
        return len(c)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def truncate(self, size=None):
        self._open()
        size = self._pos if size is None else int(size)
        if size < 0:
            raise ValueError('Negative size value %d' % size)
        del self._data[size:]
        return size

    def getvalue(self):
        self._open()
        return mkstr(self._data)


class StringIO(_TextStream):
    def __init__(self, initial_value='', newline='\n'):
        self._data = list(chars(initial_value or ''))
        self._pos = 0


class TextIn(_TextStream):
    encoding = 'utf-8'

    def __init__(self, text):
        self._data = list(chars(text))
        self._pos = 0


class TextOut(_TextStream):
    def __init__(self, path, encoding):
        self.name = path
        self._data = []
        self._pos = 0
        self.encoding = encoding or 'utf-8'

    def write(self, s):
        n = _TextStream.write(self, s)
        FS.files[self.name].extend(octets(encode(s, self.encoding)))
        return n


io = types.SimpleNamespace(
    BytesIO=BytesIO, StringIO=StringIO, open=vfs_open, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2,
    UnsupportedOperation=_io.UnsupportedOperation, RawIOBase=_io.RawIOBase, IOBase=_io.IOBase,
    BufferedIOBase=_io.BufferedIOBase, TextIOBase=_io.TextIOBase, TextIOWrapper=_io.TextIOWrapper)


# -------------------------------------------------------------------- mmap --
class SMmap(_ByteStream):
    def __init__(self, fileno, length, access=0, **kw):
        path = FS.fds[fileno]
        src = FS.octets(path)
        if not src:
            raise ValueError('cannot mmap an empty file')
        self.access = access
        self.path = path
        self._data = list(src) if access == ACCESS_COPY else src
        self._pos = 0
        self.exports = 0

    def size(self):
        return len(FS.octets(self.path))

    def __len__(self):
        return len(self._data)

    def seek(self, pos, whence=0):
        pos = int(pos)
        where = pos if whence == 0 else self._pos + pos if whence == 1 else len(self._data) + pos
        if not 0 <= where <= len(self._data):
            raise ValueError('seek out of range')
        self._pos = where

    def read_byte(self):
        self._open()
        if self._pos >= len(self._data):
            raise ValueError('read byte out of range')
        self._pos += 1
        return self._data[self._pos - 1]

    def _writable(self):
        if self.access == ACCESS_READ:
            raise TypeError("mmap can't modify a readonly memory map.")

    def write(self, data):
        self._writable()
        o = octets(data)
        if self._pos + len(o) > len(self._data):
            raise ValueError('data out of range')
        return _ByteStream.write(self, data)

    def write_byte(self, b):
        self.write(mkbytes([b]))

    def __getitem__(self, k):
        self._open()
        if isinstance(k, slice):
            f = lambda x: None if x is None else int(x)
            return mkbytes(self._data[slice(f(k.start), f(k.stop), f(k.step))])
        from .rt import seq_index
        return seq_index(self._data, k, 'mmap index out of range')

    def __setitem__(self, k, v):
        self._writable()
        if isinstance(k, slice):
            self._data[slice(*[None if x is None else int(x) for x in (k.start, k.stop, k.step)])] = list(octets(v))
        else:
            self._data[int(k)] = byte_value(v)

    def find(self, sub, start=None, end=None):
        return SymBytes(tuple(self._data)).find(sub, self._pos if start is None else start, end)

    def close(self):
        if self.exports > 0:
            raise BufferError('cannot close exported pointers exist')
        self.closed = True

    def __del__(self):
        pass


ACCESS_READ, ACCESS_WRITE, ACCESS_COPY, ACCESS_DEFAULT = 1, 2, 3, 0
mmap = types.SimpleNamespace(mmap=SMmap, ACCESS_READ=1, ACCESS_WRITE=2, ACCESS_COPY=3, ACCESS_DEFAULT=0)

_FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
        'l': (8, True), 'L': (8, False), 'q': (8, True), 'Q': (8, False), 'c': (1, None)}


class SMemoryView:
    """memoryview over a list of octets, one or two dimensions."""

    def __init__(self, data, readonly, start=0, length=None, fmt='B', shape=None, owner=None):
        self._d = data
        self.readonly = readonly
        self._start = start
        self._n = len(data) - start if length is None else length      # bytes
        self.format = fmt
        self.itemsize = _FMT[fmt][0]
        self.shape = tuple(shape) if shape is not None else (self._n // self.itemsize,)
        self.ndim = len(self.shape)
        self.obj = owner
        self._released = False
        if owner is not None and isinstance(owner, SMmap):
            owner.exports += 1

    @staticmethod
    def of(x):
        if isinstance(x, SMmap):
            x._open()
            return SMemoryView(x._data, x.access == ACCESS_READ, owner=x)
        if isinstance(x, SMemoryView):
            x._alive()
            return SMemoryView(x._d, x.readonly, x._start, x._n, x.format, x.shape, x.obj)
        if isinstance(x, (bytes, SymBytes)):
            return SMemoryView(list(octets(x)), True, owner=x)
        if isinstance(x, SByteArray):
            return SMemoryView(x.c, False, owner=x)
        raise TypeError("memoryview: a bytes-like object is required, not '%s'" % seqs.pytype(x).__name__)

    def _alive(self):
        if self._released:
            raise ValueError('operation forbidden on released memoryview object')

    def release(self):
        if not self._released:
            self._released = True
            if isinstance(self.obj, SMmap):
                self.obj.exports -= 1

    def __del__(self):
        try:
            self.release()
        except Exception:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.release()

    @property
    def nbytes(self):
        return self._n

    def octets(self):
        self._alive()
        return self._d[self._start:self._start + self._n]

    def tobytes(self):
        return mkbytes(self.octets())

    def __len__(self):
        return self.shape[0]

    def cast(self, fmt, shape=None):
        self._alive()
        fmt = fmt.lstrip('@')
        if fmt not in _FMT:
            raise ValueError("memoryview: destination format must be a native single character format prefixed with an optional '@'")
        if self.format not in ('B', 'b', 'c') and fmt not in ('B', 'b', 'c'):
            raise TypeError('memoryview: cannot cast between two non-byte formats')
        size = _FMT[fmt][0]
        if self._n % size:
            raise TypeError('memoryview: length is not a multiple of itemsize')
        if shape is not None:
            shape = [int(s) for s in shape]
            t = size
            for s in shape:
                if s <= 0:
                    raise ValueError('memoryview.cast(): elements of shape must be integers > 0')
                t *= s
            if t != self._n:
                raise TypeError('memoryview: product(shape) * itemsize != buffer size')
        return SMemoryView(self._d, self.readonly, self._start, self._n, fmt, shape, self.obj)

    def _item(self, i):
        p = self._start + i * self.itemsize
        if self.itemsize == 1 and self.format == 'B':
            return self._d[p]
        v = int_from(self._d[p:p + self.itemsize], 'little', bool(_FMT[self.format][1]))
        return mkbytes([v]) if self.format == 'c' else v

    def _flat(self, k):
        """candidates: list of (condition, flat index)"""
        if not isinstance(k, tuple):
            k = (k,)
        if len(k) != self.ndim:
            raise NotImplementedError('sub-views are not implemented')
        idx = []
        for d, i in enumerate(k):
            n = self.shape[d]
            if isinstance(i, SymBool):
                i = i._int()
            if isinstance(i, SymInt):
                if not sand(i >= -n, i < n):
                    raise IndexError('index out of bounds on dimension %d' % (d + 1))
                if i.lo is None or i.lo < 0:
                    i = ite(i < 0, i + n, i)
            else:
                i = i.__index__()
                if not -n <= i < n:
                    raise IndexError('index out of bounds on dimension %d' % (d + 1))
                if i < 0:
                    i += n
            idx.append(i)
        flat = idx[0]
        for d in range(1, self.ndim):
            flat = flat * self.shape[d] + idx[d]
        return flat

    def __getitem__(self, k):
        self._alive()
        if isinstance(k, slice):
            if self.ndim != 1:
                raise NotImplementedError('multi-dimensional slicing is not implemented')
            f = lambda x: None if x is None else int(x)
            s, e, st = slice(f(k.start), f(k.stop), f(k.step)).indices(self.shape[0])
            if st != 1:
                raise NotImplementedError('step')
            e = max(s, e)
            return SMemoryView(self._d, self.readonly, self._start + s * self.itemsize,
                               (e - s) * self.itemsize, self.format, None, self.obj)
        flat = self._flat(k)
        if isinstance(flat, SymInt):
            from .rt import seq_index
            n = self._n // self.itemsize
            if n <= 64:
                lo = max(0, flat.lo) if flat.lo is not None else 0
                hi = min(n - 1, flat.hi) if flat.hi is not None else n - 1
                r = self._item(hi)
                for i in range(hi - 1, lo - 1, -1):
                    r = ite(flat == i, self._item(i), r)
                return r
            flat = int(flat)
        return self._item(flat)

    def __setitem__(self, k, v):
        self._alive()
        if self.readonly:
            raise TypeError('cannot modify read-only memory')
        if isinstance(k, slice):
            f = lambda x: None if x is None else int(x)
            s, e, st = slice(f(k.start), f(k.stop), f(k.step)).indices(self.shape[0])
            o = octets(v)
            if len(o) != (max(s, e) - s) * self.itemsize:
                raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
            p = self._start + s * self.itemsize
            self._d[p:p + len(o)] = list(o)
            return
        flat = self._flat(k)
        if not is_int(v):
            raise TypeError("memoryview: invalid type for format '%s'" % self.format)
        size, signed = _FMT[self.format]
        if isinstance(v, SymBool):
            v = v._int()
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        if not sand(v >= lo, v <= hi):
            raise ValueError("memoryview: invalid value for format '%s'" % self.format)
        nb = list(octets(v.to_bytes(size, 'little', signed=bool(signed))))
        if isinstance(flat, SymInt):
            n = self._n // self.itemsize
            if n > 64:
                flat = int(flat)
            else:
                for i in range(n):
                    c = flat == i
                    if c is False:
                        continue
                    p = self._start + i * size
                    for j in range(size):
                        self._d[p + j] = ite(c, nb[j], self._d[p + j])
                return
        p = self._start + flat * size
        self._d[p:p + size] = nb

    def __iter__(self):
        if self.ndim != 1:
            raise NotImplementedError('multi-dimensional sub-views are not implemented')
        for i in range(self.shape[0]):
            yield self._item(i)

    def tolist(self):
        if self.ndim == 1:
            return list(self)
        r, c = self.shape
        return [[self._item(i * c + j) for j in range(c)] for i in range(r)]

    def __eq__(self, o):
        try:
            return seqs.seq_eq(tuple(self.octets()), tuple(octets(o)))
        except TypeError:
            return False

    __hash__ = None


# ------------------------------------------------------------------ struct --
import struct as _struct


def _parse_fmt(fmt):
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, native = 'little', True
    if fmt and fmt[0] in '@=<>!':
        if fmt[0] in '>!':
            order = 'big'
        native = fmt[0] == '@'
        fmt = fmt[1:]
    size = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8 if native else 4, 'L': 8 if native else 4,
            'q': 8, 'Q': 8, 'x': 1, 's': 1, 'c': 1, '?': 1}
    out, pos, num = [], 0, ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        if ch not in size:
            raise core.Unsupported('struct format %r' % ch)
        n = int(num) if num else 1
        num = ''
        sz = size[ch]
        if native and sz > 1 and pos % sz:
            pad = sz - pos % sz
            out.append(('x', pad, pad))
            pos += pad
        if ch == 's':
            out.append(('s', n, n))
            pos += n
        elif ch == 'x':
            out.append(('x', n, n))
            pos += n
        else:
            for _ in range(n):
                out.append((ch, sz, 1))
                pos += sz
    return order, out, pos


def st_calcsize(fmt):
    return _parse_fmt(fmt)[2]


def _unpack(fmt, buf):
    order, items, total = _parse_fmt(fmt)
    out, p = [], 0
    for ch, sz, n in items:
        b = buf[p:p + sz]
        p += sz
        if ch == 'x':
            continue
        if ch == 's':
            out.append(mkbytes(b))
        elif ch == 'c':
            out.append(mkbytes(b))
        elif ch == '?':
            out.append(b[0] != 0)
        else:
            out.append(int_from(b, order, ch in 'bhilq'))
    return tuple(out)


def st_unpack(fmt, buf):
    o = list(octets(buf))
    n = st_calcsize(fmt)
    if len(o) != n:
        raise _struct.error('unpack requires a buffer of %d bytes' % n)
    return _unpack(fmt, o)


def _mmap_or(buf):
    if isinstance(buf, SMmap):
        return buf._data
    if isinstance(buf, BytesIO):
        raise TypeError("a bytes-like object is required, not 'BytesIO'")
    return octets(buf)


def st_unpack_from(fmt, buffer, offset=0):
    o = list(_mmap_or(buffer))
    n = st_calcsize(fmt)
    offset = int(offset)
    if offset < 0:
        if offset + len(o) < 0:
            raise _struct.error('offset %d out of range for %d-byte buffer' % (offset, len(o)))
        offset += len(o)
    if len(o) - offset < n:
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % (n + offset))
    return _unpack(fmt, o[offset:offset + n])


def st_pack(fmt, *args):
    order, items, total = _parse_fmt(fmt)
    out, k = [], 0
    for ch, sz, n in items:
        if ch == 'x':
            out.extend([0] * sz)
            continue
        if k >= len(args):
            raise _struct.error('pack expected more items for packing')
        v = args[k]
        k += 1
        if ch == 's':
            b = list(octets(v))[:n]
            out.extend(b + [0] * (n - len(b)))
        elif ch == 'c':
            out.extend(octets(v))
        elif ch == '?':
            out.append(1 if v else 0)
        else:
            if not is_int(v):
                raise _struct.error('required argument is not an integer')
            if isinstance(v, SymBool):
                v = v._int()
            signed = ch in 'bhilq'
            try:
                b = octets(v.to_bytes(sz, order, signed=signed))
            except OverflowError:
                raise _struct.error("'%s' format requires a number in range" % ch) from None
            out.extend(b)
    if k < len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (k, len(args)))
    return mkbytes(out)


def st_pack_into(fmt, buffer, offset, *args):
    b = octets(st_pack(fmt, *args))
    for i, x in enumerate(b):
        buffer[int(offset) + i] = x


def st_iter_unpack(fmt, buf):
    o = list(octets(buf))
    n = st_calcsize(fmt)
    if n == 0 or len(o) % n:
        raise _struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    for i in range(0, len(o), n):
        yield _unpack(fmt, o[i:i + n])


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = st_calcsize(fmt)

    def unpack(self, b):
        return st_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return st_unpack_from(self.format, b, offset)

    def pack(self, *a):
        return st_pack(self.format, *a)

    def pack_into(self, b, o, *a):
        return st_pack_into(self.format, b, o, *a)

    def iter_unpack(self, b):
        return st_iter_unpack(self.format, b)


struct = types.SimpleNamespace(unpack=st_unpack, unpack_from=st_unpack_from, pack=st_pack, calcsize=st_calcsize,
                               error=_struct.error, pack_into=st_pack_into, iter_unpack=st_iter_unpack, Struct=Struct)


class SArray:
    """array.array for integer typecodes"""

    def __init__(self, typecode, init=()):
        self.typecode = typecode
        self.itemsize, self._signed = _FMT[typecode]
        self._v = []
        if isinstance(init, (bytes, SymBytes, SByteArray)):
            self.frombytes(init)
        else:
            for x in init:
                self.append(x)

    def _conv(self, v):
        if isinstance(v, SymBool):
            v = v._int()
        n = 8 * self.itemsize
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if self._signed else (0, (1 << n) - 1)
        if not sand(v >= lo, v <= hi):
            raise OverflowError('value out of range for array')
        return v

    def append(self, v):
        self._v.append(self._conv(v))

    def extend(self, it):
        for x in it:
            self.append(x)

    def frombytes(self, b):
        o = list(octets(b))
        for i in range(0, len(o), self.itemsize):
            self._v.append(int_from(o[i:i + self.itemsize], 'little', self._signed))

    def tobytes(self):
        out = []
        for v in self._v:
            out.extend(octets(v.to_bytes(self.itemsize, 'little', signed=self._signed)))
        return mkbytes(out)

    def tolist(self):
        return list(self._v)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SArray(self.typecode, self._v[k])
        from .rt import seq_index
        return seq_index(self._v, k, 'array index out of range')

    def __setitem__(self, k, v):
        self._v[int(k)] = self._conv(v)


array = types.SimpleNamespace(array=SArray)


# ------------------------------------------------------- small replacements --
import functools as _functools


def _lru_wrap(f, maxsize, typed):
    cache = SDict()

    def wrapper(*a, **kw):
        key = a + tuple(sorted(kw.items()))
        key = tuple(_Ident(x) if not _hashable(x) else x for x in key)
        key = key[0] if len(key) == 1 else key
        hit = cache.get(key, cache)
        if hit is not cache:
            return hit
        r = f(*a, **kw)
        if maxsize is not None and len(cache) >= max(maxsize, 0):
            if maxsize <= 0:
                return r
            for k in cache:
                del cache[k]
                break
        cache[key] = r
        return r
    _functools.update_wrapper(wrapper, f)
    wrapper.cache_clear = cache.clear
    wrapper.cache_info = lambda: None
    return wrapper


def _hashable(x):
    if is_symbolic(x):
        return True
    if isinstance(x, (SDict, SSet, list)):
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    return True


class _Ident:
    def __init__(self, x):
        self.x = x


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _lru_wrap(maxsize, 128, False)

    def deco(f):
        return _lru_wrap(f, maxsize, typed)
    return deco


def cache(f):
    return _lru_wrap(f, None, False)


def _proxy_module(real, **over):
    m = types.ModuleType(real.__name__)
    for k in dir(real):
        if not k.startswith('__'):
            try:
                setattr(m, k, getattr(real, k))
            except Exception:
                pass
    for k, v in over.items():
        setattr(m, k, v)
    return m


functools = _proxy_module(_functools, lru_cache=lru_cache, cache=cache)

import collections as _collections


class SCounter(SDict):
    def __init__(self, it=None):
        SDict.__init__(self)
        if it is not None:
            for x in it:
                self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0


collections = _proxy_module(_collections, defaultdict=SDefaultDict, OrderedDict=SDict, Counter=SCounter)


class _SortedContainers(types.ModuleType):
    SortedDict = SSortedDict


sortedcontainers = _SortedContainers('sortedcontainers')

import unicodedata as _ud


def normalize(form, s):
    if isinstance(form, Sym):
        form = form.concrete()
    if not isinstance(s, SymStr):
        return _ud.normalize(form, s)
    if len(s.c) == 1:
        return s._map(seqs._norm[form])
    # context matters for longer strings: characters that stand alone are
    # mapped one by one; anything else is concretised
    if all(isinstance(c, int) or _inert(form, c) for c in s.c):
        return s._map(seqs._norm[form])
    return _ud.normalize(form, s.concrete())


def _inert(form, c):
    t = _INERT.get(form)
    if t is None:
        t = _INERT[form] = seqs.class_table(lambda cp: cp < 0x300)
    return bool(t(c))


_INERT = {}
_RAISES = ('raises',)
_by_value = {}


def _per_char(name, *fixed):
    """A function of unicodedata on a symbolic character: one branch for every value it has."""
    real = getattr(_ud, name)

    def value(cp):
        try:
            return real(*fixed, chr(cp))
        except ValueError:
            return _RAISES

    def f(s, *default):
        if not isinstance(s, SymStr):
            return real(*fixed, s, *default)
        if len(s.c) != 1 or isinstance(s.c[0], int):
            return real(*fixed, s.concrete(), *default)
        key = (name,) + fixed
        if key not in _by_value:
            sets = {}
            last = None
            for cp in range(0x110000):
                v = value(cp)
                r = sets.setdefault(v, [])
                if r and r[-1][1] == cp - 1:
                    r[-1][1] = cp
                else:
                    r.append([cp, cp])
            _by_value[key] = sorted(((v, [tuple(x) for x in r]) for v, r in sets.items()), key=lambda x: -len(x[1]))
        c = s.c[0]
        dom = list(seqs.domain_of(c))
        for v, ranges in _by_value[key]:
            inside = core.r_and(ranges, dom)
            if inside and seqs.in_ranges(c, inside):
                if v is _RAISES:
                    if default:
                        return default[0]
                    return real(*fixed, s.concrete())
                return v
        return real(*fixed, s.concrete(), *default)
    return f


def is_normalized(form, s):
    if isinstance(form, Sym):
        form = form.concrete()
    if not isinstance(s, SymStr) or len(s.c) == 1:
        return _per_char('is_normalized', form)(s)
    return s == normalize(form, s)


unicodedata = _proxy_module(_ud, normalize=normalize, is_normalized=is_normalized,
                            **{k: _per_char(k) for k in ('category', 'bidirectional', 'combining', 'east_asian_width', 'mirrored',
                                                         'decomposition', 'decimal', 'digit', 'numeric', 'name')})


class _Logger:
    def __init__(self, name=None):
        self.name = name
        self.disabled = False
        self.propagate = True
        self.handlers = []
        self.level = 0
        self.lines = []

    def _emit(self, level, msg, args):
        if self.disabled or level < self.getEffectiveLevel():
            return
        for h in self.handlers:
            if level >= h.level:
                h.handle_text(msg, args)

    def debug(self, msg, *args, **k):
        self._emit(10, msg, args)

    def info(self, msg, *args, **k):
        self._emit(20, msg, args)

    def warning(self, msg, *args, **k):
        self._emit(30, msg, args)

    warn = warning

    def error(self, msg, *args, **k):
        self._emit(40, msg, args)

    exception = error

    def critical(self, msg, *args, **k):
        self._emit(50, msg, args)

    def log(self, level, msg, *args, **k):
        self._emit(level, msg, args)

    def setLevel(self, l):
        self.level = l

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def isEnabledFor(self, l):
        return not self.disabled and l >= self.getEffectiveLevel()

    def getEffectiveLevel(self):
        return self.level or 30

    def hasHandlers(self):
        return bool(self.handlers)


class _Handler:
    level = 0

    def __init__(self, *a, **k):
        pass

    def setLevel(self, l):
        self.level = l

    def setFormatter(self, f):
        pass

    def handle_text(self, msg, args):
        pass

    def flush(self):
        pass

    close = flush


class _Formatter:
    def __init__(self, fmt=None, *a, **k):
        self.plain = fmt in (None, '%(message)s', '{message}', '$message')


class _StreamHandler(_Handler):
    """A handler that writes plain messages."""
    terminator = '\n'

    def __init__(self, stream=None):
        self.stream = stream

    def setFormatter(self, f):
        if f is not None and not f.plain:
            raise core.Unsupported('log formats')

    def handle_text(self, msg, args):
        from . import rt
        if self.stream is None or self.stream is _sys.stderr:
            return
        msg = rt.m_str(msg)
        if args:
            msg = rt.str_mod(msg, args)
        self.stream.write(msg + self.terminator)
        self.flush()

    def flush(self):
        if self.stream is not None and hasattr(self.stream, 'flush'):
            self.stream.flush()


class _Logging(types.ModuleType):
    DEBUG, INFO, WARNING, WARN, ERROR, CRITICAL, NOTSET = 10, 20, 30, 30, 40, 50, 0
    Logger = _Logger
    Handler = FileHandler = NullHandler = _Handler
    StreamHandler = _StreamHandler
    Formatter = _Formatter

    def __init__(self):
        types.ModuleType.__init__(self, 'logging')
        self.table = {}

    def reset(self):
        self.table.clear()

    def getLogger(self, name=None):
        return self.table.setdefault(name, _Logger(name))

    def basicConfig(self, **k):
        pass


logging = _Logging()


# --------------------------------------------------------------- fileinput --
class FileInput:
    """The lines of several files one after the other."""

    def __init__(self, files=None, inplace=False, backup='', *, mode='r', openhook=None, encoding=None, errors=None):
        if inplace:
            raise core.Unsupported('fileinput in place')
        if isinstance(files, (str, SymStr)):
            files = (files,)
        elif files is None:
            files = _sys.argv[1:]
        self._files = list(files) or ['-']
        self._mode, self._hook = mode, openhook
        self._how = {'encoding': encoding, 'errors': errors}
        self._file = self._name = None
        self._line = self._fileline = 0

    def readline(self):
        while True:
            if self._file is None:
                if not self._files:
                    return ''
                self._name = self._files.pop(0)
                self._fileline = 0
                if self._name == '-':
                    self._name = '<stdin>'
                    self._file = _sys.stdin
                elif self._hook:
                    self._file = self._hook(self._name, self._mode)
                else:
                    self._file = vfs_open(self._name, self._mode, **self._how)
            l = self._file.readline()
            if len(l):
                self._line += 1
                self._fileline += 1
                return l
            self.nextfile()

    def nextfile(self):
        if self._file is not None and self._name != '<stdin>':
            self._file.close()
        self._file = None

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def filename(self):
        return self._name

    def lineno(self):
        return self._line

    def filelineno(self):
        return self._fileline

    def isfirstline(self):
        return self._fileline == 1

    def isstdin(self):
        return self._name == '<stdin>'

    def close(self):
        self.nextfile()
        self._files = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def hook_encoded(encoding, errors=None):
    return lambda filename, mode: vfs_open(filename, mode, encoding=encoding, errors=errors)


fileinput = types.ModuleType('fileinput')
fileinput.FileInput = fileinput.input = FileInput
fileinput.hook_encoded = hook_encoded


def _json_load(f, **kw):
    return _json_loads(f.read(), **kw)


def _json_loads(t, **kw):
    if kw:
        raise core.Unsupported('json.load(s) with %s' % ', '.join(kw))
    return _sdict(_json.loads(t.concrete() if isinstance(t, Sym) else t))


def _sdict(o):
    if isinstance(o, dict):
        return SDict([(_sdict(k), _sdict(v)) for k, v in o.items()])
    if isinstance(o, list):
        return [_sdict(v) for v in o]
    if isinstance(o, str) and o.startswith('@@symbolic-'):
        return FS.json[int(o[11:-2])]
    return o


json = _proxy_module(_json, load=_json_load, loads=_json_loads)


# ------------------------------------------------------------- os, pathlib --
def _s(p):
    if isinstance(p, SPath):
        return p.s
    if isinstance(p, SymStr):
        return p
    return _os.fspath(p)


def p_isabs(p):
    p = _s(p)
    return p.startswith('/')


def p_join(a, *ps):
    path = _s(a)
    for b in ps:
        b = _s(b)
        if b.startswith('/') or (not len(path)):
            path = b
        elif path.endswith('/'):
            path = path + b
        else:
            path = path + '/' + b
    return path


def p_split(p):
    p = _s(p)
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if len(head) and not head == '/' * len(head):
        head = head.rstrip('/')
    return head, tail


def p_dirname(p):
    return p_split(p)[0]


def p_basename(p):
    return p_split(p)[1]


def p_exists(p):
    p = _s(p)
    if isinstance(p, SymStr):
        for q in list(FS.files) + list(FS.texts):
            if p == q:
                return True
        return False
    p = _here(p)
    return FS.exists(p) or _os.path.exists(p)


def p_normpath(p):
    p = _s(p)
    if isinstance(p, SymStr):
        p = p.concrete()
    return _os.path.normpath(p)


def p_abspath(p):
    p = _s(p)
    if not p_isabs(p):
        p = p_join(FS.cwd or _os.getcwd(), p)
    return p_normpath(p)


def p_splitext(p):
    p = _s(p)
    return _os.path.splitext(p.concrete() if isinstance(p, SymStr) else p)


class _OsPath(types.ModuleType):
    pass


path = _proxy_module(_os.path, isabs=p_isabs, join=p_join, split=p_split, dirname=p_dirname, basename=p_basename,
                     exists=p_exists, isfile=p_exists, normpath=p_normpath, abspath=p_abspath, splitext=p_splitext)


def os_fspath(p):
    return _s(p)


os = _proxy_module(_os, path=path, fspath=os_fspath, open=None, remove=None, unlink=None, rename=None,
                   system=None, rmdir=None, removedirs=None, kill=None)


class SPath:
    """pathlib.Path (POSIX): normalised lazily"""

    def __init__(self, *parts):
        s = ''
        for p in parts:
            s = p_join(s, p) if len(s) else _s(p)
        if isinstance(s, str):
            import pathlib
            s = str(pathlib.PurePosixPath(s)) if s else '.'
        self.s = s

    def is_absolute(self):
        return p_isabs(self.s)

    def absolute(self):
        if self.is_absolute():
            return self
        return SPath(p_join(_os.getcwd(), self.s))

    resolve = absolute

    def as_posix(self):
        return self.s

    @property
    def parent(self):
        return SPath(p_dirname(self.s))

    @property
    def name(self):
        return p_basename(self.s)

    def joinpath(self, *o):
        return SPath(p_join(self.s, *o))

    def __truediv__(self, o):
        return SPath(p_join(self.s, o))

    def __rtruediv__(self, o):
        return SPath(p_join(o, self.s))

    def exists(self):
        return p_exists(self.s)

    is_file = exists

    def open(self, *a, **k):
        return vfs_open(self.s, *a, **k)

    def read_text(self, encoding=None):
        return vfs_open(self.s, encoding=encoding).read()

    def read_bytes(self):
        return vfs_open(self.s, 'rb').read()

    def __str__(self):
        return self.s if isinstance(self.s, str) else self.s.concrete()

    def __fspath__(self):
        return str(self)

    def __eq__(self, o):
        return isinstance(o, SPath) and self.s == o.s

    def __hash__(self):
        return hash(str(self))


import pathlib as _pathlib
pathlib = _proxy_module(_pathlib, Path=SPath, PurePath=SPath, PosixPath=SPath, PurePosixPath=SPath)


# --------------------------------------------------------------- dartsclone --
class DoubleArray:
    """Contract of dartsclone.DoubleArray: an exact prefix dictionary.

    The array is represented by an opaque block of 256*k units whose first
    unit is a ticket; reading an array from an offset where no such block
    starts is reported as a broken trie.
    """
    UNITS = 256

    def __init__(self):
        self.keys = None
        self._n = 0
        self._ticket = None

    def build(self, keys, lengths=None, values=None, *a):
        keys = [octets(k) for k in keys]
        if lengths is not None:
            keys = [k[:int(n)] for k, n in zip(keys, lengths)]
        if values is None:
            values = list(range(len(keys)))
        out = []
        prev = None
        for k, v in zip(keys, values):
            if len(k) == 0:
                raise RuntimeError('failed to insert key: zero-length key')
            if v < 0:
                raise RuntimeError('failed to insert key: negative value')
            if not v < 2 ** 31:
                raise OverflowError('value too large to convert to int')
            if prev is not None:
                if seqs.seq_lt(k, prev, False):
                    raise RuntimeError('failed to insert key: wrong key order')
                if seqs.seq_eq(k, prev):
                    prev = k
                    continue
            out.append((k, v))
            prev = k
        self.keys = out
        reg = core.E.cachebag.setdefault('darts', {})
        self._ticket = core.E.cachebag.get('darts_next', 0) + 1
        core.E.cachebag['darts_next'] = self._ticket
        reg[self._ticket] = out
        self._n = self.UNITS
        return None

    def _array(self):
        t = self._ticket
        return bytes([t & 255, 0xDA, 0x27, 0x5C]) + bytes([0xDA]) * (4 * self._n - 4)

    def array(self):
        return self._array()

    def size(self):
        return self._n

    def unit_size(self):
        return 4

    def total_size(self):
        return 4 * self._n

    def nonzero_size(self):
        return self._n

    def clear(self):
        self.keys = None
        self._n = 0

    def set_array(self, array, size=0):
        o = array.octets() if isinstance(array, SMemoryView) else list(octets(array))
        self._n = int(size)
        self.keys = None
        self._bad = True
        if len(o) >= 4 and o[1:4] == [0xDA, 0x27, 0x5C] and isinstance(o[0], int):
            t = core.E.cachebag.get('darts', {}).get(o[0])
            if t is not None and self._n == self.UNITS and len(o) == 4 * self._n and all(
                    isinstance(x, int) and x == 0xDA for x in o[4:]):
                self.keys = t
                self._bad = False

    def _search(self, key, length):
        if self.keys is None:
            raise RuntimeError('broken trie')
        k = octets(key)
        n = int(length)
        if n == 0:
            # the length is that of the NUL-terminated string
            n = len(k)
            for i, b in enumerate(k):
                if b == 0:
                    n = i
                    break
        return k[:n]

    def common_prefix_search(self, key, max_num_results=0, length=0, node_pos=0, pair_type=True):
        k = self._search(key, length)
        found = []
        for kk, v in self.keys:
            if len(kk) <= len(k) and seqs.seq_eq(kk, k[:len(kk)]):
                found.append((v, len(kk)))
        # keys of equal length are distinct, so at most one matches per length
        found.sort(key=lambda p: p[1])
        if pair_type:
            return found
        return [v for v, _ in found]

    def exact_match_search(self, key, length=0, node_pos=0, pair_type=True):
        k = self._search(key, length)
        for kk, v in self.keys:
            if len(kk) == len(k) and seqs.seq_eq(kk, k):
                return (v, len(kk)) if pair_type else v
        return (-1, 0) if pair_type else -1


class _Darts(types.ModuleType):
    pass


dartsclone = _Darts('dartsclone')
dartsclone.DoubleArray = DoubleArray


# --------------------------------------------------------------------- csv --
def csv_reader(lines, dialect='excel', delimiter=',', quotechar='"', doublequote=True, skipinitialspace=False, **kw):
    """Port of the state machine of Modules/_csv.c (without escape characters)."""
    for k, v in [('dialect', dialect)] + list(kw.items()):
        if (k, v) not in (('dialect', 'excel'), ('quoting', 0), ('escapechar', None), ('strict', False), ('lineterminator', '\r\n')):
            raise core.Unsupported('csv.reader with %s' % k)
    it = iter(lines)
    D, Q = ord(delimiter), ord(quotechar) if quotechar else -1
    while True:
        fields, field, state = [], [], 0
        # 0 START_RECORD 1 START_FIELD 2 IN_FIELD 3 IN_QUOTED 4 QUOTE_IN_QUOTED 5 EAT_CRNL
        first = True
        while True:
            try:
                line = next(it)
            except StopIteration:
                if field or state == 3:
                    # end of input inside a field
                    fields.append(mkstr(field))
                    yield fields
                return
            for c in list(chars(line)) + [None]:
                nl = c is None or bool(sor(c == 10, c == 13))
                if state == 0:
                    if c is None:
                        break
                    if nl:
                        state = 5
                        continue
                    state = 1
                if state == 1:
                    if nl:
                        fields.append(mkstr(field))
                        field = []
                        state = 0 if c is None else 5
                    elif c == Q:
                        state = 3
                    elif skipinitialspace and c == 32:
                        pass
                    elif c == D:
                        fields.append('')
                    else:
                        field.append(c)
                        state = 2
                elif state == 2:
                    if nl:
                        fields.append(mkstr(field))
                        field = []
                        state = 0 if c is None else 5
                    elif c == D:
                        fields.append(mkstr(field))
                        field = []
                        state = 1
                    else:
                        field.append(c)
                elif state == 3:
                    if c is None:
                        pass
                    elif c == Q:
                        state = 4
                    else:
                        field.append(c)
                elif state == 4:
                    if not nl and c == Q:
                        field.append(c)
                        state = 3
                    elif not nl and c == D:
                        fields.append(mkstr(field))
                        field = []
                        state = 1
                    elif nl:
                        fields.append(mkstr(field))
                        field = []
                        state = 0 if c is None else 5
                    else:
                        field.append(c)
                        state = 2
                elif state == 5:
                    if c is None:
                        state = 0
                    elif nl:
                        pass
                    else:
                        import csv
                        raise csv.Error('new-line character seen in unquoted field')
            if state == 0 or state == 5:
                break
        yield fields


import csv as _csv
csv = _proxy_module(_csv, reader=csv_reader)
