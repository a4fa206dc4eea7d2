"""Regular expressions on symbolic strings: a backtracking matcher over the
parse tree of the real `re._parser`, which forks on character tests."""
import re as _re
from re import _parser, _constants as C

from . import core, seqs
from .core import SymInt, sand, snot, sor
from .seqs import SymStr, mkstr, chars, is_space, is_word, is_decimal, is_linebreak
from .containers import SDict


class Match:
    def __init__(self, pat, string, cs, groups, pos):
        self.re, self.string, self._c, self._g = pat, string, cs, groups
        self.pos, self.endpos = pos, len(cs)
        self.lastindex = max([k for k in groups if k], default=None)

    def _no(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else int(g)

    def span(self, g=0):
        return self._g.get(self._no(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _s(self, g):
        a, b = self.span(g)
        return None if a < 0 else mkstr(self._c[a:b])

    def group(self, *gs):
        if not gs:
            return self._s(0)
        if len(gs) == 1:
            return self._s(gs[0])
        return tuple(self._s(g) for g in gs)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._s(i) is None else self._s(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._s(i) is None else self._s(i)) for n, i in self.re.groupindex.items()}

    def expand(self, t):
        return _expand(t, self)

    def __bool__(self):
        return True


def _ci(c, fn):
    return fn(c)


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.real = _re.compile(pattern, flags)
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self.tree = _parser.parse(pattern, flags)

    # -- matching engine: continuation passing --
    def _lit(self, c, x):
        if self.flags & C.SRE_FLAG_IGNORECASE:
            alts = {x}
            for y in (ord(chr(x).lower()[0]), ord(chr(x).upper()[0])):
                alts.add(y)
            return sor(*[c == a for a in sorted(alts)])
        return c == x

    def _cat(self, c, av):
        n = str(av)
        asc = self.flags & C.SRE_FLAG_ASCII
        if n.endswith('NOT_SPACE') or n.endswith('NOT_DIGIT') or n.endswith('NOT_WORD'):
            return snot(self._cat(c, n.replace('NOT_', '')))
        if n.endswith('SPACE'):
            return sor(c == 32, sand(c >= 9, c <= 13)) if asc else is_space(c)
        if n.endswith('DIGIT'):
            return sand(c >= 48, c <= 57) if asc else is_decimal(c)
        if n.endswith('WORD'):
            return is_word(c) if not asc else sand(c < 128, is_word(c))
        raise core.Unsupported('regex category %s' % n)

    def _in(self, c, items):
        out, neg = [], False
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                out.append(self._lit(c, av))
            elif op is C.RANGE:
                r = sand(c >= av[0], c <= av[1])
                if self.flags & C.SRE_FLAG_IGNORECASE:
                    for k in range(av[0], av[1] + 1):
                        r = sor(r, self._lit(c, k))
                out.append(r)
            elif op is C.CATEGORY:
                out.append(self._cat(c, av))
            else:
                raise core.Unsupported('regex set item %s' % (op,))
        r = sor(*out)
        return snot(r) if neg else r

    def _seq(self, items, k, s, i, g, cont):
        """match items[k:] at i, then cont(i, g)"""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        rest = lambda j, h: self._seq(items, k + 1, s, j, h, cont)
        n = len(s)
        if op is C.LITERAL:
            return rest(i + 1, g) if i < n and self._lit(s[i], av) else None
        if op is C.NOT_LITERAL:
            return rest(i + 1, g) if i < n and not self._lit(s[i], av) else None
        if op is C.ANY:
            if i < n and (self.flags & C.SRE_FLAG_DOTALL or not s[i] == 10):
                return rest(i + 1, g)
            return None
        if op is C.IN:
            return rest(i + 1, g) if i < n and self._in(s[i], av) else None
        if op is C.AT:
            return rest(i, g) if self._at(av, s, i) else None
        if op is C.SUBPATTERN:
            gid, add, dele, p = av
            if gid is None:
                return self._seq(p, 0, s, i, g, rest)
            return self._seq(p, 0, s, i, g, lambda j, h: rest(j, {**h, gid: (i, j)}))
        if op is C.BRANCH:
            for p in av[1]:
                r = self._seq(p, 0, s, i, g, rest)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, 'POSSESSIVE_REPEAT', None)):
            lo, hi, p = av
            hi = len(s) + lo + 1 if hi is C.MAXREPEAT else hi
            if op is getattr(C, 'POSSESSIVE_REPEAT', None):
                raise core.Unsupported('possessive repeat')
            return self._rep(p, lo, hi, op is C.MAX_REPEAT, s, i, g, rest, 0)
        if op is C.GROUPREF:
            a, b = g.get(av, (-1, -1))
            if a < 0 or i + b - a > n:
                return None
            return rest(i + b - a, g) if seqs.seq_eq(s[a:b], s[i:i + b - a]) else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                r = None
                if i - lo >= 0:
                    r = self._seq(p, 0, s, i - lo, g, lambda j, h: (j, h) if j == i else None)
            else:
                r = self._seq(p, 0, s, i, g, lambda j, h: (j, h))
            if (r is not None) == (op is C.ASSERT):
                return rest(i, r[1] if r is not None else g)
            return None
        raise core.Unsupported('regex op %s' % (op,))

    def _rep(self, p, lo, hi, greedy, s, i, g, cont, n):
        def more():
            if n >= hi:
                return None
            def again(j, h):
                if j == i and n >= lo:
                    return None
                return self._rep(p, lo, hi, greedy, s, j, h, cont, n + 1)
            return self._seq(p, 0, s, i, g, again)
        if n < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else cont(i, g)
        r = cont(i, g)
        return r if r is not None else more()

    def _at(self, av, s, i):
        n = len(s)
        if av is C.AT_BEGINNING:
            if self.flags & C.SRE_FLAG_MULTILINE:
                return i == 0 or bool(s[i - 1] == 10)
            return i == 0
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_END:
            if self.flags & C.SRE_FLAG_MULTILINE:
                return i == n or bool(s[i] == 10)
            return i == n or (i == n - 1 and bool(s[i] == 10))
        if av is C.AT_END_STRING:
            return i == n
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and bool(is_word(s[i - 1]))
            b = i < n and bool(is_word(s[i]))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise core.Unsupported('regex anchor %s' % (av,))

    def _try(self, string, i, full=False):
        cs = chars(string)
        end = (lambda j, h: (j, h) if j == len(cs) else None) if full else (lambda j, h: (j, h))
        r = self._seq(self.tree, 0, cs, i, {}, end)
        if r is None:
            return None
        return Match(self, string, cs, {**r[1], 0: (i, r[0])}, i)

    def _conc(self, s):
        return isinstance(s, str)

    def match(self, s, pos=0, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        if self._conc(s):
            return self.real.match(s, pos)
        self._type(s)
        return self._try(s, pos)

    def _type(self, s):
        if not isinstance(s, (str, SymStr)):
            raise TypeError("expected string or bytes-like object, got '%s'" % seqs.pytype(s).__name__)

    def fullmatch(self, s, pos=0, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        if self._conc(s):
            return self.real.fullmatch(s, pos)
        self._type(s)
        return self._try(s, pos, True)

    def search(self, s, pos=0, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        if self._conc(s):
            return self.real.search(s, pos)
        self._type(s)
        for i in range(pos, len(s) + 1):
            m = self._try(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        if self._conc(s):
            yield from self.real.finditer(s, pos)
            return
        i = pos
        last = None
        while i <= len(s):
            m = self._try(s, i)
            if m is None or (m.end() == i and last == i):
                if m is not None and m.end() == i:
                    pass
                i += 1
                continue
            yield m
            last = m.end()
            i = m.end() if m.end() > m.start() else i + 1
        return

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(m.groups(''))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        cs = chars(s)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(cs[pos:m.start()])
            if callable(repl):
                from .rt import call
                out.extend(chars(call(repl, m)))
            else:
                out.extend(chars(_expand(repl, m)))
            pos = m.end()
            n += 1
        out.extend(cs[pos:])
        return mkstr(out), n

    def split(self, s, maxsplit=0):
        if self._conc(s):
            return self.real.split(s, maxsplit)
        cs = chars(s)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(cs[pos:m.start()]))
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(mkstr(cs[pos:]))
        return out


def _expand(t, m):
    if isinstance(t, SymStr):
        t = t.concrete()
    if '\\' not in t:
        return t
    out = ''
    i = 0
    res = []
    for x in _re.split(r'(\\g<\w+>|\\\d+|\\.)', t):
        if x.startswith('\\g<'):
            k = x[3:-1]
            res.append(m.group(int(k) if k.isdigit() else k) or '')
        elif x.startswith('\\') and x[1:].isdigit():
            res.append(m.group(int(x[1:])) or '')
        elif x.startswith('\\'):
            res.append({'n': '\n', 't': '\t', '\\': '\\', 'r': '\r'}.get(x[1], x))
        else:
            res.append(x)
    from .rt import join
    return join('', res)


_cache = {}


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    if isinstance(p, SymStr):
        p = p.concrete()
    if isinstance(p, bytes):
        return _re.compile(p, flags)
    key = (p, int(flags))
    if key not in _cache:
        _cache[key] = Pattern(p, int(flags))
    return _cache[key]


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def sub(p, r, s, count=0, flags=0):
    return compile(p, flags).sub(r, s, count)


def subn(p, r, s, count=0, flags=0):
    return compile(p, flags).subn(r, s, count)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


from .models import _proxy_module
module = _proxy_module(_re, compile=compile, match=match, fullmatch=fullmatch, search=search, split=split, sub=sub,
                       subn=subn, findall=findall, finditer=finditer, Pattern=Pattern, Match=Match)
