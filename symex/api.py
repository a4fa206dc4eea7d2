"""What a harness sees in symbolic mode (its twin for concrete runs is in
replay.py)."""
import z3

from . import core, loader, models, rt, seqs, containers
from .core import SymBool, SymInt, sand, snot, sor, ite, bexpr
from .seqs import SymStr, mkstr

ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
TEXT = ((1, 0xD7FF), (0xE000, 0x10FFFF))          # no NUL (dartsclone's limit)
BMP = ((1, 0xD7FF), (0xE000, 0xFFFF))


def ranges_of(dom):
    """A domain: a string of the allowed characters or ((lo, hi), ...)."""
    if isinstance(dom, str):
        cps = sorted(set(map(ord, dom)))
        out = []
        for c in cps:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
        return tuple(map(tuple, out))
    return tuple(dom)


MEMO = {}
_tickets = [127]
_depth = [0]


class SymS:
    symbolic = True
    ANY, TEXT, BMP = ANY, TEXT, BMP

    def __init__(self, known=(), finding=None):
        self._known = set(known)
        self._finding = finding

    # -- inputs -----------------------------------------------------------
    def _input(self, name, v):
        E = core.E
        if name in E.inputs:
            raise core.Unsupported('input %s declared twice' % name)
        E.inputs[name] = v
        E.input_order.append(name)
        return v

    def int(self, name, lo, hi):
        if lo == hi:
            return self._input(name, lo)
        return self._input(name, core.fresh_int(name, lo, hi))

    def bool(self, name):
        return self._input(name, core.fresh_bool(name))

    def _char(self, name, dom):
        rs = ranges_of(dom)
        lo, hi = rs[0][0], rs[-1][1]
        if lo == hi:
            return lo
        return core.fresh_int(name, lo, hi, core.r_norm(rs))

    def text(self, name, n, dom=TEXT):
        cs = tuple(self._char('%s[%d]' % (name, i), dom) for i in range(n))
        return self._input(name, mkstr(cs))

    def char(self, name, dom=TEXT):
        return self.text(name, 1, dom)

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def subset(self, name, elems):
        s = containers.SSet()
        for e in elems:
            s.add(e, self.bool('%s.%s' % (name, getattr(e, 'name', e))))
        return s

    # -- logic --------------------------------------------------------------
    def and_(self, *xs):
        return sand(*[self._b(x) for x in xs])

    def or_(self, *xs):
        return sor(*[self._b(x) for x in xs])

    def not_(self, x):
        return snot(self._b(x))

    def implies(self, a, b):
        return sor(snot(self._b(a)), self._b(b))

    def ite(self, c, a, b):
        c = self._b(c)
        if c is True or c is False:
            return a if c else b
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and len(a) == len(b):
            return mkstr(tuple(ite(c, x, y) for x, y in zip(seqs.chars(a), seqs.chars(b))))
        if core.is_int(a) and core.is_int(b):
            return ite(c, a, b)
        return a if c else b

    @staticmethod
    def _b(x):
        if x is True or x is False or type(x) is SymBool:
            return x
        return rt.m_bool(x)

    def concrete(self, x):
        """Fork over the values of x."""
        return rt.concretise(x)

    def codes(self, t):
        return list(seqs.chars(t))

    def same(self, a, b):
        """Deep equality as one condition."""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
                return False
            return sand(*[self.same(x, y) for x, y in zip(a, b)])
        return self._b(a == b)

    # -- verdicts -------------------------------------------------------------
    def assume(self, c):
        core.E.assume(self._b(c))

    def check(self, c, label):
        core.E.check(self._b(c), label)

    def fail(self, label):
        core.E.check(False, label)

    def reach(self, label):
        E = core.E
        E.labels[label] = E.labels.get(label, 0) + 1

    def observe(self, name, value):
        core.E.observed.append((name, value))

    def exclude(self, finding, c):
        """Leave out inputs of a listed known finding."""
        if finding in self._known and finding != self._finding:
            self.assume(snot(self._b(c)))

    # -- the code under test ----------------------------------------------------
    def load(self, name):
        return loader.load(name)

    def memo(self, key, fn):
        """fn() for a computation on constants that gives bytes: done once per
        process with the code under test."""
        E = core.E
        if key not in MEMO:
            reg = E.cachebag.setdefault('darts', {})
            before = set(reg)
            nxt = E.cachebag.get('darts_next', 0)
            if _depth[0]:
                _tickets[0] = max(_tickets[0], nxt)
            E.cachebag['darts_next'] = _tickets[0]
            E.nofork += 1
            _depth[0] += 1
            try:
                v = fn()
                if type(v) is not bytes:
                    raise core.NoFork()
                MEMO[key] = (v, {k: reg[k] for k in reg if k not in before})
                _tickets[0] = E.cachebag['darts_next']
            except core.NoFork:
                MEMO[key] = None
            finally:
                E.nofork -= 1
                _depth[0] -= 1
                E.cachebag['darts_next'] = _tickets[0] if _depth[0] else nxt
            if _tickets[0] > 250:
                raise core.Unsupported('too many constant dictionaries')
        got = MEMO[key]
        if got is None:
            return fn()
        E.cachebag.setdefault('darts', {}).update(got[1])
        return got[0]

    def path(self, name):
        return '/vfs/' + name

    def put(self, name, data):
        p = self.path(name)
        if isinstance(data, (str, SymStr)):
            models.FS.put_text(p, data)
        elif isinstance(data, (dict, containers.SDict)):
            models.FS.put_json(p, data)
        else:
            models.FS.put_bytes(p, data)
        return p

    def get(self, name):
        p = name if name.startswith('/') else self.path(name)
        return seqs.mkbytes(models.FS.octets(p))

    def exists(self, name):
        return models.FS.exists(self.path(name))

    def inside(self, fn):
        """fn() with the scratch directory as the working directory."""
        models.FS.cwd = '/vfs'
        try:
            return fn()
        finally:
            models.FS.cwd = None

    def stream(self, text):
        """An open text file with the given contents."""
        return models.TextIn(models.universal(text))

    def patch_module(self, name, module):
        """Replace a library module for this path."""
        loader.EXTRA[name] = module

    def open(self, path, mode='rb', **kw):
        return models.vfs_open(path, mode, **kw)
