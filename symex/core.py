"""Symbolic values and the path explorer.

A path is one execution of the harness.  Every time the program needs the
truth value of a symbolic condition (`SymBool.__bool__`) or the number behind a
symbolic integer (`SymInt.__index__`) the engine takes a decision, asking Z3
which outcomes are feasible under the decisions taken so far.  Decisions are
recorded on a trail; a path is resumed by re-executing the harness with a
prefix of the trail, so that the whole tree is walked depth first.
"""
import bisect
import math
import os
import random
import time

import z3

z3.set_param('memory_high_watermark_mb', 3000)
CTX = z3.main_ctx()


class Control(BaseException):
    """Base of the exceptions that steer exploration (never an Exception)."""


class PathEnd(Control):
    """The current path is infeasible or needs no further exploration."""


class Violation(Control):
    def __init__(self, label):
        self.label = label


class Inconclusive(Control):
    """The solver did not answer."""


class Unsupported(Control):
    """The program did something on symbolic values that is not modelled."""


class Nondeterminism(Control):
    pass


class StepLimit(Control):
    pass


class NoFork(Control):
    """A speculative evaluation would have to take a decision."""


_T = z3.BoolVal(True)
_F = z3.BoolVal(False)
_and, _or, _not, _if = z3.And, z3.Or, z3.Not, z3.If


# ------------------------------------------------------------ range sets --
# A set of integers as a sorted tuple of disjoint, non-adjacent (lo, hi).
def r_norm(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def r_and(x, y):
    if x == y:
        return x
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a, b = x[i]
        c, d = y[j]
        lo = a if a > c else c
        if b < d:
            hi = b
            i += 1
        else:
            hi = d
            j += 1
        if lo <= hi:
            out.append((lo, hi))
    return tuple(out)


def r_or(x, y):
    return r_norm(x + y)


def r_sub(x, y):
    """x without y"""
    out = []
    j = 0
    for a, b in x:
        while j < len(y) and y[j][1] < a:
            j += 1
        k = j
        while k < len(y) and y[k][0] <= b:
            c, d = y[k]
            if c > a:
                out.append((a, c - 1))
            a = d + 1
            k += 1
        if a <= b:
            out.append((a, b))
    return tuple(out)


_uexprs = {}


def u_expr(var, R, D):
    """z3 condition saying that the variable lies in R, given that it lies in D
    (R a non-empty proper subset of D)."""
    expr, kind = var[0], var[2]
    if kind == 'bool':
        return expr if R[0][0] == 1 else _not(expr)
    # merge the pieces of D into blocks inside and outside R
    pieces = []
    for a, b in D:
        for c, d in r_and(R, ((a, b),)):
            if a < c:
                pieces.append((False, a, c - 1))
            pieces.append((True, c, d))
            a = d + 1
        if a <= b:
            pieces.append((False, a, b))
    blocks = []
    for t, a, b in pieces:
        if blocks and blocks[-1][0] == t:
            blocks[-1][2] = b
        else:
            blocks.append([t, a, b])
    n_in = sum(1 for x in blocks if x[0])
    want = n_in * 2 <= len(blocks)
    key = (expr.get_id(), tuple((a, b) for t, a, b in blocks if t == want), blocks[0][1], blocks[-1][2], want)
    got = _uexprs.get(key)
    if got is not None:
        return got[0]
    es = []
    for i, (t, a, b) in enumerate(blocks):
        if t != want:
            continue
        first, last = i == 0, i == len(blocks) - 1
        if first and last:
            es.append(_T)
        elif a == b:
            es.append(expr == a)
        elif first:
            es.append(expr <= b)
        elif last:
            es.append(expr >= a)
        else:
            es.append(_and(expr >= a, expr <= b))
    e = es[0] if len(es) == 1 else _or(*es)
    if not want:
        e = _not(e)
    if len(_uexprs) > 50000:
        _uexprs.clear()
    _uexprs[key] = (e, expr)
    return e


_fv = {}
_fv_keep = []


def free_vars(e):
    """Names of the variables of a z3 expression."""
    got = _fv.get(e.get_id())
    if got is not None:
        return got
    if len(_fv) > 400000:
        _fv.clear()
        del _fv_keep[:]
    _fv_keep.append(e)
    ref = CTX.ref()
    get_id, nargs, arg = z3.Z3_get_ast_id, z3.Z3_get_app_num_args, z3.Z3_get_app_arg

    def name(a):
        d = z3.Z3_get_app_decl(ref, a)
        if z3.Z3_get_decl_kind(ref, d) != z3.Z3_OP_UNINTERPRETED:
            return frozenset()
        return frozenset((z3.Z3_get_symbol_string(ref, z3.Z3_get_decl_name(ref, d)),))

    root = e.as_ast()
    stack = [root]
    while stack:
        a = stack[-1]
        k = get_id(ref, a)
        if k in _fv:
            stack.pop()
            continue
        if z3.Z3_get_ast_kind(ref, a) != z3.Z3_APP_AST:
            _fv[k] = frozenset()
            stack.pop()
            continue
        app = z3.Z3_to_app(ref, a)
        n = nargs(ref, app)
        if n == 0:
            _fv[k] = name(app)
            stack.pop()
            continue
        kids = [arg(ref, app, i) for i in range(n)]
        todo = [x for x in kids if get_id(ref, x) not in _fv]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        for x in kids:
            s = s | _fv[get_id(ref, x)]
        _fv[k] = s
        stack.pop()
    return _fv[e.get_id()]


class Engine:
    def __init__(self, timeout_ms=60000, seed=1):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.stack = []            # z3 literals on the solver
        self.trail = []            # [value, pending, aux]
        self.base = 0
        self.queries = 0
        self.solver_s = 0.0
        self.nodes = 0             # decisions taken (new tree nodes)
        self.branches = 0          # outgoing feasible branches seen
        self.steps_limit = 50_000_000
        self.functions = set()
        self.partial = set()       # places where exploration was cut
        self.unknowns = 0
        self.concretise_cap = 400
        self.nofork = 0
        self.confirm = os.environ.get('SYMEX_CONFIRM', '1') != '0'
        self.reset_path()

    # -- life of a path -------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.decided = {}
        self.inputs = {}
        self.input_order = []
        self.labels = {}
        self.observed = []
        self.model = None
        self.steps = 0
        self.nofork = 0
        self.cachebag = {}
        self.want = []             # literals of the current path
        self.synced = 0            # how many of them are on the solver
        self.var = {}              # name -> (expr, initial ranges, kind)
        self.dom = {}              # name -> ranges it is known to lie in
        self.taint = set()         # names related to others by the path

    def start(self, prefix):
        """Begin exploring below `prefix` (a list of (value, aux))."""
        while self.stack:
            self.stack.pop()
            self.solver.pop()
        self.trail = [[v, False, aux] for v, aux in prefix]
        self.base = len(self.trail)

    def backtrack(self):
        """Move to the next unexplored path; False when there is none."""
        while len(self.trail) > self.base:
            top = self.trail[-1]
            if top[1]:
                top[0] = not top[0]
                top[1] = False
                return True
            self.trail.pop()
        return False

    def split(self, limit):
        """Hand over pending alternatives (shallowest first) as prefixes."""
        out = []
        for i in range(self.base, len(self.trail)):
            ent = self.trail[i]
            if ent[1]:
                pre = [(t[0], t[2]) for t in self.trail[:i]]
                pre.append((not ent[0], ent[2]))
                out.append(pre)
                ent[1] = False
                if len(out) >= limit:
                    break
        return out

    # -- solver ----------------------------------------------------------
    def _check(self, *lits):
        self._sync()
        self.queries += 1
        t = time.perf_counter()
        r = self.solver.check(*lits)
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.unknowns += 1
            raise Inconclusive(self.solver.reason_unknown())
        return r == z3.sat

    def _push(self, lit):
        """Add a literal to the path; it reaches the solver when needed."""
        self.want.append(lit)

    def _sync(self):
        """Bring the solver's assertions in line with the path."""
        want, stack, n = self.want, self.stack, self.synced
        while n < len(want) and n < len(stack) and (stack[n] is want[n] or stack[n].eq(want[n])):
            n += 1
        while len(stack) > n:
            stack.pop()
            self.solver.pop()
        while n < len(want):
            self.solver.push()
            self.solver.add(want[n])
            stack.append(want[n])
            n += 1
        self.synced = n

    def _taint(self, e):
        self.taint |= free_vars(e)

    def _note(self, e, v):
        self.decided[e.get_id()] = (v, e)

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise PathEnd()
            self.model = self.solver.model()
        return self.model

    def branch(self, e, hint=None):
        """Decide the boolean expression e."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        got = self.decided.get(e.get_id())
        if got is not None:
            return got[0]
        neg = None
        if z3.is_not(e):
            got = self.decided.get(e.arg(0).get_id())
            if got is not None:
                return not got[0]
        if self.nofork:
            raise NoFork()
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            self.pos += 1
            v, aux = ent[0], ent[2]
            if aux[0] == 'f':      # forced: implied by the path
                self._note(e, v)
                return v
            if aux[0] != 'b':
                raise Nondeterminism('branch where the trail has %r' % (aux,))
            lit = e if v else _not(e)
            self._push(lit)
            self._taint(e)
            self.model = None
            self._note(e, v)
            return v
        neg = _not(e)
        m = self.get_model()
        self.nodes += 1
        mv = z3.is_true(m.eval(e, model_completion=True))
        other = neg if mv else e
        if not self._check(other):
            self.trail.append([mv, False, ('f',)])
            self.pos += 1
            self.branches += 1
            self._note(e, mv)
            return mv
        self.branches += 2
        # explore True first unless hinted
        v = True if hint is None else hint
        if v != mv:
            self.model = self.solver.model()
        self.trail.append([v, True, ('b',)])
        self.pos += 1
        self._push(e if v else neg)
        self._taint(e)
        self._note(e, v)
        return v

    def decide(self, c, hint=None):
        """The truth value of the SymBool c on this path."""
        if c.box is None:
            return self.branch(c.e, hint)
        dom = self.dom
        parts = []
        for vid, R in c.box:
            D = dom[vid]
            I = r_and(D, R)
            if not I:
                return c.neg
            if I != D:
                parts.append((vid, I, D))
            elif self.confirm and vid not in self.taint:
                self._confirm(vid, D)
        if not parts:
            return not c.neg
        multi = len(parts) > 1
        if multi:
            key = ('x', tuple(p[:2] for p in parts))
            got = self.decided.get(key)
            if got is not None:
                return got != c.neg
        if self.nofork:
            raise NoFork()
        forced = False
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            self.pos += 1
            v, aux = ent[0], ent[2]
            if aux[0] == 'f':
                forced = True
            elif aux[0] != 'b':
                raise Nondeterminism('branch where the trail has %r' % (aux,))
        else:
            self.nodes += 1
            free = not any(p[0] in self.taint for p in parts)
            if free:
                # each variable is constrained by its own range only
                v = True if hint is None else hint != c.neg
                self.branches += 2
                if self.confirm:
                    lit = self._box_lit(parts)
                    if not (self._check(lit) and self._check(_not(lit))):
                        raise AssertionError('range reasoning disagrees with the solver')
            else:
                lit = self._box_lit(parts)
                neg = _not(lit)
                m = self.get_model()
                mv = z3.is_true(m.eval(lit, model_completion=True))
                if not self._check(neg if mv else lit):
                    v = mv
                    forced = True
                    self.branches += 1
                else:
                    v = True if hint is None else hint != c.neg
                    if v != mv:
                        self.model = self.solver.model()
                    self.branches += 2
            self.trail.append([v, not forced, ('f',) if forced else ('b',)])
            self.pos += 1
        self._settle(parts, v, forced)
        if multi:
            self.decided[key] = v
        return v != c.neg

    def _confirm(self, vid, D):
        """(self test) ask the solver whether the variable really lies in D"""
        d0 = self.var[vid][1]
        if D != d0 and self._check(_not(u_expr(self.var[vid], D, d0))):
            raise AssertionError('range reasoning disagrees with the solver')

    def close_path(self):
        """End of a complete path: the solver confirms that the path is
        feasible and that the ranges used on it follow from its condition."""
        if not self.confirm:
            return
        self.get_model()
        es = [_F if not D else u_expr(self.var[v], D, self.var[v][1]) for v, D in self.dom.items()
              if D != self.var[v][1]]
        if es and self._check(_not(_and(*es)) if len(es) > 1 else _not(es[0])):
            raise AssertionError('range reasoning disagrees with the solver')

    def _box_lit(self, parts):
        es = [u_expr(self.var[vid], I, D) for vid, I, D in parts]
        return es[0] if len(es) == 1 else _and(*es)

    def _settle(self, parts, v, forced=False):
        """Record that the box `parts` is v on this path."""
        if not forced:
            lit = self._box_lit(parts)
            if not v:
                lit = _not(lit)
            self._push(lit)
            if self.model is not None and not z3.is_true(self.model.eval(lit, model_completion=True)):
                self.model = None
        if v:
            for vid, I, D in parts:
                self.dom[vid] = I
        elif len(parts) == 1:
            vid, I, D = parts[0]
            self.dom[vid] = r_sub(D, I)
        elif not forced:
            self.taint.update(p[0] for p in parts)

    def assume(self, c):
        """Keep only the paths on which c (SymBool or bool) holds."""
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if c.box is not None:
            dom = self.dom
            parts = []
            empty = False
            for vid, R in c.box:
                D = dom[vid]
                I = r_and(D, R)
                if not I:
                    empty = True
                elif I != D:
                    parts.append((vid, I, D))
            if empty or not parts:
                if empty != c.neg:
                    raise PathEnd()
                return
            free = not any(p[0] in self.taint for p in parts)
            new = self.pos >= len(self.trail)
            self._assumed()
            self._settle(parts, not c.neg)
            if new and not free and self.model is None:
                self.get_model()
            return
        e = c.e
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd()
        got = self.decided.get(e.get_id())
        if got is not None:
            if not got[0]:
                raise PathEnd()
            return
        new = self.pos >= len(self.trail)
        self._assumed()
        self._push(e)
        self._taint(e)
        self._note(e, True)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        if new:
            self.get_model()

    def _assumed(self):
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[2][0] != 'a':
                raise Nondeterminism('assume where the trail has %r' % (ent[2],))
        else:
            self.trail.append([True, False, ('a',)])
        self.pos += 1

    def declare(self, e):
        """Domain of a fresh variable (satisfiable by construction)."""
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            self.pos += 1
            if ent[2][0] != 'd':
                raise Nondeterminism('declaration where the trail has %r' % (ent[2],))
        else:
            self.trail.append([True, False, ('d',)])
            self.pos += 1
        self._push(e)
        self.model = None

    def pick(self, x, cap=None):
        """Concretise the SymInt x by forking over its feasible values."""
        if x.lo is not None and x.lo == x.hi:
            return x.lo
        if x.fn is not None:
            return self._pick_fn(x, cap or self.concretise_cap)
        got = self.decided.get(('v', x.e.get_id()))
        if got is not None:
            return got[0]
        if self.nofork:
            raise NoFork()
        tried = 0
        cap = cap or self.concretise_cap
        while True:
            if self.pos < len(self.trail):
                ent = self.trail[self.pos]
                self.pos += 1
                v, aux = ent[0], ent[2]
                if aux[0] == 'fi':
                    self.decided[('v', x.e.get_id())] = (aux[1], x.e)
                    return aux[1]
                if aux[0] != 'i':
                    raise Nondeterminism('pick where the trail has %r' % (aux,))
                lit = x.e == aux[1]
                self._push(lit if v else _not(lit))
                self._taint(x.e)
                self.model = None
                if v:
                    self.decided[('v', x.e.get_id())] = (aux[1], x.e)
                    return aux[1]
                tried += 1
                continue
            m = self.get_model()
            val = m.eval(x.e, model_completion=True).as_long()
            self.nodes += 1
            lit = x.e == val
            neg = _not(lit)
            if not self._check(neg):
                self.trail.append([True, False, ('fi', val)])
                self.pos += 1
                self.branches += 1
                self.decided[('v', x.e.get_id())] = (val, x.e)
                return val
            self.branches += 2
            tried += 1
            self.trail.append([True, self._more(tried, cap), ('i', val)])
            self.pos += 1
            self._push(lit)
            self._taint(x.e)
            self.decided[('v', x.e.get_id())] = (val, x.e)
            return val

    def _more(self, tried, cap):
        if tried >= cap:
            self.partial.add('values of one integer explored: at most %d' % cap)
            return False
        return True

    def _pick_fn(self, x, cap):
        """pick for a function of one variable: by its range."""
        tried = 0
        vid = x.fn[0]
        while True:
            segs = segs_now(x)
            lo, hi = image(segs)
            if lo == hi:
                return lo
            if self.nofork:
                raise NoFork()
            D = self.dom[vid]
            forced = False
            if self.pos < len(self.trail):
                ent = self.trail[self.pos]
                self.pos += 1
                v, aux = ent[0], ent[2]
                if aux[0] not in ('i', 'fi'):
                    raise Nondeterminism('pick where the trail has %r' % (aux,))
                val = aux[1]
                forced = aux[0] == 'fi'
                I = preimage(segs, '==', val)
            else:
                self.nodes += 1
                v = True
                tried += 1
                if vid not in self.taint:
                    val = lo
                    I = preimage(segs, '==', val)
                else:
                    m = self.get_model()
                    val = fn_value(x, m)
                    I = preimage(segs, '==', val)
                    forced = not self._check(_not(u_expr(self.var[vid], I, D)))
                if forced:
                    self.branches += 1
                    self.trail.append([True, False, ('fi', val)])
                else:
                    self.branches += 2
                    self.trail.append([True, self._more(tried, cap), ('i', val)])
                self.pos += 1
            self._settle([(vid, I, D)], v, forced)
            if v:
                return val
            if not forced:
                tried += 1

    def check(self, c, label):
        """Assert c; raises Violation with the model in self.model."""
        self.labels[label] = self.labels.get(label, 0) + 1
        if c is True:
            return
        if c is False:
            self.get_model()
            raise Violation(label)
        e = c.e
        if z3.is_true(e):
            return
        key = e.get_id()
        got = self.decided.get(key)
        if got is not None and got[0]:
            return
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            self.pos += 1
            if ent[2][0] != 'c':
                raise Nondeterminism('check where the trail has %r' % (ent[2],))
        else:
            if self._check(_not(e)):
                self.model = self.solver.model()
                raise Violation(label)
            self.trail.append([True, False, ('c',)])
            self.pos += 1
        self._note(e, True)
        if c.box is not None and not c.neg:
            for vid, R in c.box:
                self.dom[vid] = r_and(self.dom[vid], R)

    def input_values(self, model=None):
        if model is None:
            model = self.get_model()
        out = {}
        for name in self.input_order:
            out[name] = conc(self.inputs[name], model)
        return out


E = Engine()


def set_engine(e):
    global E
    E = e


def engine():
    return E


def conc(x, model):
    """The concrete value of a (possibly symbolic) value under a model."""
    from . import seqs, containers
    if isinstance(x, SymBool):
        if x.box is not None:
            return all(any(a <= var_value(vid, model) <= b for a, b in R) for vid, R in x.box) != x.neg
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, SymInt):
        if x.fn is not None:
            return fn_value(x, model)
        return model.eval(x.e, model_completion=True).as_long()
    if isinstance(x, seqs.SymStr):
        return ''.join(chr(conc(c, model)) for c in x.c)
    if isinstance(x, seqs.SymBytes):
        return bytes(conc(c, model) for c in x.c)
    if isinstance(x, containers.SSet):
        return {conc(k, model) for k, g in x.items_guarded() if conc(g, model)}
    if isinstance(x, containers.SDict):
        return {conc(k, model): conc(v, model) for k, v in x.items()}
    if isinstance(x, list):
        return [conc(i, model) for i in x]
    if isinstance(x, tuple):
        return tuple(conc(i, model) for i in x)
    if isinstance(x, dict):
        return {conc(k, model): conc(v, model) for k, v in x.items()}
    return x


def var_value(vid, model):
    expr, _, kind = E.var[vid]
    v = model.eval(expr, model_completion=True)
    return (1 if z3.is_true(v) else 0) if kind == 'bool' else v.as_long()


def fn_value(x, model):
    v = var_value(x.fn[0], model)
    for a, b, d, k in x.fn[1]:
        if a <= v <= b:
            return v * k + d
    raise AssertionError('value outside the domain of a function')


class Sym:
    __slots__ = ()


class SymBool(Sym):
    """A condition: a z3 expression, or a box - a conjunction of "variable in
    range set" - possibly negated."""
    __slots__ = ('_e', 'box', 'neg')

    def __init__(self, e=None, box=None, neg=False):
        self._e = e
        self.box = box
        self.neg = neg

    @property
    def e(self):
        e = self._e
        if e is None:
            es = []
            for vid, R in self.box:
                D = E.dom[vid]
                I = r_and(D, R)
                if not I:
                    es = [_F]
                    break
                if I != D:
                    es.append(u_expr(E.var[vid], I, D))
            e = _T if not es else es[0] if len(es) == 1 else _and(*es)
            if self.neg:
                e = _F if z3.is_true(e) else _T if z3.is_false(e) else _not(e)
            self._e = e
        return e

    def __bool__(self):
        return E.decide(self)

    def _int(self):
        if self.box is not None and len(self.box) == 1:
            return ite(self, 1, 0)
        return SymInt(_if(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __index__(self):
        return 1 if E.decide(self) else 0

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            if self.box is not None and o.box is not None:
                return ite(self, o, snot(o))
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else snot(self)
        if isinstance(o, (int, SymInt)):
            return self._int() == o
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sand(self, o)
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sor(self, o)
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return snot(self) if o else self
        if isinstance(o, SymBool):
            return snot(self == o)
        return self._int() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._int()

    def __repr__(self):
        return str(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _bool_arith(name):
    def f(self, *a):
        return getattr(self._int(), name)(*a)
    return f


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ __rfloordiv__ __mod__ __rmod__ '
           '__lshift__ __rlshift__ __rshift__ __rrshift__ __neg__ __pos__ __abs__ __lt__ __le__ __gt__ __ge__ '
           '__truediv__ __rtruediv__ __pow__ __rpow__').split():
    setattr(SymBool, _n, _bool_arith(_n))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkbox(vid, R):
    """The condition that a variable lies in R."""
    D = E.dom[vid]
    I = r_and(D, R)
    if not I:
        return False
    if I == D:
        return True
    return SymBool(None, ((vid, I),))


def bexpr(x):
    """z3 Bool of a Python/symbolic truth value (forking if it must)."""
    if x is True:
        return _T
    if x is False or x is None:
        return _F
    if isinstance(x, SymBool):
        return x.e
    return _T if x else _F


def _single(x):
    return x.box is not None and len(x.box) == 1 and not x.neg


def sand(*xs):
    out = []
    boxes = {}
    only = None
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, SymBool):
            only = x
            if x.box is not None and not x.neg:
                for vid, R in x.box:
                    o = boxes.get(vid)
                    if o is not None:
                        R = r_and(o, R)
                    if not R:
                        return False
                    boxes[vid] = R
            else:
                out.append(x)
        elif not x:
            return False
    if not out and not boxes:
        return True
    if len(out) == 1 and not boxes:
        return out[0]
    if boxes:
        b = []
        for vid, R in boxes.items():
            D = E.dom[vid]
            R = r_and(D, R)
            if not R:
                return False
            if R != D:
                b.append((vid, R))
        if b:
            bb = SymBool(None, tuple(b))
            if not out:
                return bb
            out.append(bb)
        elif not out:
            return True
    if len(out) == 1:
        return out[0]
    es = [x.e for x in out]
    if any(z3.is_false(e) for e in es):
        return False
    es = [e for e in es if not z3.is_true(e)]
    if not es:
        return True
    return mkbool(es[0] if len(es) == 1 else _and(*es))


def sor(*xs):
    boxes = {}
    negs = []
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if isinstance(x, SymBool):
            if _single(x):
                vid, R = x.box[0]
                o = boxes.get(vid)
                boxes[vid] = R if o is None else r_or(o, R)
            elif x.box is not None and x.neg:
                negs.append(x)
            else:
                out.append(x)
        elif x:
            return True
    for vid in list(boxes):
        D = E.dom[vid]
        R = r_and(D, boxes[vid])
        if R == D:
            return True
        if not R:
            del boxes[vid]
        else:
            boxes[vid] = R
    if not out:
        if not negs:
            if not boxes:
                return False
            if len(boxes) == 1:
                return SymBool(None, tuple(boxes.items()))
        elif len(negs) == 1 and not boxes:
            return negs[0]
        c = sand(*([SymBool(None, x.box) for x in negs]
                   + [mkbox(vid, r_sub(E.dom[vid], R)) for vid, R in boxes.items()]))
        return snot(c)
    if len(out) == 1 and not boxes and not negs:
        return out[0]
    es = [x.e for x in out + negs] + [SymBool(None, ((vid, R),)).e for vid, R in boxes.items()]
    if any(z3.is_true(e) for e in es):
        return True
    es = [e for e in es if not z3.is_false(e)]
    if not es:
        return False
    return mkbool(es[0] if len(es) == 1 else _or(*es))


def snot(x):
    if isinstance(x, SymBool):
        if x.box is not None:
            if x.neg:
                return SymBool(None, x.box)
            if len(x.box) == 1:
                vid, R = x.box[0]
                return mkbox(vid, r_sub(E.dom[vid], R))
            return SymBool(None, x.box, True)
        if z3.is_not(x.e):
            return mkbool(x.e.arg(0))
        return SymBool(_not(x.e))
    return not x


# ------------------------------------------- functions of one variable --
# fn = (variable, segs); segs a sorted tuple of (lo, hi, delta, slope): on
# lo..hi the value is slope * variable + delta.
def segs_now(x):
    """The segments restricted to what the variable can be here."""
    vid, segs = x.fn
    D = E.dom[vid]
    if x.fd is D:
        return segs
    if len(segs) == 1 and len(D) == 1 and segs[0][0] <= D[0][0] and D[0][1] <= segs[0][1]:
        s = segs[0]
        segs = ((D[0][0], D[0][1], s[2], s[3]),)
    else:
        out = []
        i = j = 0
        while i < len(segs) and j < len(D):
            s = segs[i]
            c, d = D[j]
            lo = s[0] if s[0] > c else c
            if s[1] < d:
                hi = s[1]
                i += 1
            else:
                hi = d
                j += 1
            if lo <= hi:
                out.append((lo, hi, s[2], s[3]))
        segs = tuple(out)
    x.fn = (vid, segs)
    x.fd = D
    return segs


def image(segs):
    lo = hi = None
    for a, b, d, k in segs:
        u, v = a * k + d, b * k + d
        if u > v:
            u, v = v, u
        if lo is None or u < lo:
            lo = u
        if hi is None or v > hi:
            hi = v
    return lo, hi


def preimage(segs, op, o):
    """Where the function compares with the constant o."""
    out = []
    if op == '<':
        op, o = '<=', o - 1
    elif op == '>=':
        op, o = '>', o - 1
    for a, b, d, k in segs:
        t = o - d
        if k == 0:
            if (t == 0) if op == '==' else (t >= 0) if op == '<=' else (t < 0):
                out.append((a, b))
            continue
        if op == '==':
            if t % k == 0 and a <= t // k <= b:
                out.append((t // k, t // k))
            continue
        # k * v <= t  or  k * v > t
        if k > 0:
            m = t // k                      # v <= m
            if op == '<=':
                if a <= m:
                    out.append((a, min(b, m)))
            elif b > m:
                out.append((max(a, m + 1), b))
        else:
            m = -(t // -k)                  # v >= m
            if op == '<=':
                if b >= m:
                    out.append((max(a, m), b))
            elif a < m:
                out.append((a, min(b, m - 1)))
    return r_norm(out)


def preimage_ranges(segs, rs):
    """Where the function lies in one of the (sorted, disjoint) ranges."""
    out = []
    ends = [r[1] for r in rs]
    for a, b, d, k in segs:
        if k == 0:
            i = bisect.bisect_left(ends, d)
            if i < len(rs) and rs[i][0] <= d:
                out.append((a, b))
        elif k == 1:
            i = bisect.bisect_left(ends, a + d)
            while i < len(rs) and rs[i][0] <= b + d:
                out.append((max(a, rs[i][0] - d), min(b, rs[i][1] - d)))
                i += 1
        else:
            for lo, hi in rs:
                out.extend(preimage(preimage_cut((a, b, d, k), lo), '<=', hi))
    return r_norm(out)


def preimage_cut(seg, lo):
    return tuple((a, b, seg[2], seg[3]) for a, b in preimage((seg,), '>=', lo))


def mkfn(vid, segs, al=0, src=None):
    lo, hi = image(segs)
    if lo == hi:
        return lo
    m = []
    for s in segs:
        if m and m[-1][2:] == s[2:] and m[-1][1] + 1 == s[0]:
            m[-1] = (m[-1][0], s[1]) + s[2:]
        else:
            m.append(s)
    x = SymInt(None, lo, hi, al, src)
    x.fn = (vid, tuple(m))
    return x


def overlay(x, y):
    """Common pieces of two functions of the same variable:
    (lo, hi, delta1, slope1, delta2, slope2)."""
    f, g = segs_now(x), segs_now(y)
    out = []
    i = j = 0
    while i < len(f) and j < len(g):
        s, t = f[i], g[j]
        lo = max(s[0], t[0])
        if s[1] < t[1]:
            hi = s[1]
            i += 1
        else:
            hi = t[1]
            j += 1
        if lo <= hi:
            out.append((lo, hi, s[2], s[3], t[2], t[3]))
    return out


def as_segs(v, vid):
    """Segments of v as a function of the variable, if it is one."""
    if isinstance(v, SymInt):
        if v.fn is not None and v.fn[0] == vid:
            return segs_now(v)
        return None
    if isinstance(v, SymBool):
        if not _single(v) or v.box[0][0] != vid:
            return None
        v = v._int()
        return segs_now(v) if isinstance(v, SymInt) else tuple((a, b, v, 0) for a, b in E.dom[vid])
    return tuple((a, b, int(v), 0) for a, b in E.dom[vid])


def restrict(segs, R):
    out = []
    i = j = 0
    while i < len(segs) and j < len(R):
        s = segs[i]
        c, d = R[j]
        lo = max(s[0], c)
        if s[1] < d:
            hi = s[1]
            i += 1
        else:
            hi = d
            j += 1
        if lo <= hi:
            out.append((lo, hi, s[2], s[3]))
    return out


def _pieces(segs, n, what, cap=64):
    """Segments of floor division / remainder by n, or None if too many."""
    out = []
    for a, b, d, k in segs:
        if k == 0:
            out.append((a, b, d // n if what == '//' else d % n, 0))
            continue
        if k != 1:
            return None
        if (b - a) // n > cap:
            return None
        while a <= b:
            q = (a + d) // n
            e = min(b, (q + 1) * n - 1 - d)
            out.append((a, e, q, 0) if what == '//' else (a, e, d - q * n, 1))
            a = e + 1
        if len(out) > cap:
            return None
    return tuple(out)


def fn_expr(x):
    vid, segs = x.fn
    expr, _, kind = E.var[vid]
    if kind == 'bool':
        expr = _if(expr, z3.IntVal(1), z3.IntVal(0))
    m = []
    for a, b, d, k in segs:
        if m and m[-1][1:] == (d, k):
            m[-1] = (b, d, k)
        else:
            m.append((b, d, k))

    def leaf(d, k):
        if k == 0:
            return z3.IntVal(d)
        e = expr if k == 1 else expr * k
        return e + d if d else e

    def tree(i, j):
        if i == j:
            return leaf(*m[i][1:])
        c = (i + j) // 2
        return _if(expr <= m[c][0], tree(i, c), tree(c + 1, j))
    return tree(0, len(m) - 1)


def same_int(x, y):
    """Are these certainly the same number?"""
    if not isinstance(x, SymInt) or not isinstance(y, SymInt):
        return not isinstance(x, Sym) and not isinstance(y, Sym) and x == y
    if x is y:
        return True
    if x.fn is not None and y.fn is not None and x.fn[0] == y.fn[0]:
        return segs_now(x) == segs_now(y)
    return x.e.eq(y.e)


def rebound(v, lo, hi, src=None, al=None):
    """The same number with tighter known bounds."""
    r = SymInt(v._e, lo if v.lo is None else max(lo, v.lo), hi if v.hi is None else min(hi, v.hi),
               v.al if al is None else al, src)
    r.fn = v.fn
    r.fd = v.fd
    return r


def iexpr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x._int().e
    return z3.IntVal(int(x))


def mkint(e, lo=None, hi=None, al=0, src=None):
    if z3.is_int_value(e):
        return e.as_long()
    if lo is not None and lo == hi:
        return lo
    return SymInt(e, lo, hi, al, src)


def _toint(o):
    if isinstance(o, SymBool):
        return o._int()
    return o


_ISINT = (int,)


class SymInt(Sym):
    __slots__ = ('_e', 'lo', 'hi', 'al', 'src', 'fn', 'fd')

    def __init__(self, e, lo=None, hi=None, al=0, src=None):
        self._e = e
        self.lo = lo
        self.hi = hi
        self.al = al        # number of low bits known to be zero
        self.src = src      # where it comes from (codecs)
        self.fn = None      # (variable, segments) when a function of one variable
        self.fd = None

    @property
    def e(self):
        if self._e is None:
            segs_now(self)
            self._e = fn_expr(self)
        return self._e

    # -- control --
    def __bool__(self):
        if (self.lo is not None and self.lo > 0) or (self.hi is not None and self.hi < 0):
            return True
        return bool(self != 0)

    def __index__(self):
        return E.pick(self)

    __int__ = __index__

    def __hash__(self):
        return hash(E.pick(self))

    def __float__(self):
        return float(E.pick(self))

    def __repr__(self):
        return repr(E.pick(self))

    def __str__(self):
        return str(E.pick(self))

    def __format__(self, spec):
        return format(E.pick(self), spec)

    # -- comparison --
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o._int()
        if type(o) is int or isinstance(o, int):
            o = int(o)
            if self.fn is not None:
                return mkbox(self.fn[0], preimage(segs_now(self), op, o))
            lo, hi = self.lo, self.hi
            if op == '<':
                if hi is not None and hi < o:
                    return True
                if lo is not None and lo >= o:
                    return False
                return mkbool(self.e < o)
            if op == '<=':
                if hi is not None and hi <= o:
                    return True
                if lo is not None and lo > o:
                    return False
                return mkbool(self.e <= o)
            if op == '>':
                if lo is not None and lo > o:
                    return True
                if hi is not None and hi <= o:
                    return False
                return mkbool(self.e > o)
            if op == '>=':
                if lo is not None and lo >= o:
                    return True
                if hi is not None and hi < o:
                    return False
                return mkbool(self.e >= o)
            if (lo is not None and lo > o) or (hi is not None and hi < o):
                return False
            return mkbool(self.e == o)
        if isinstance(o, SymInt):
            if self is o:
                return op in ('<=', '>=', '==')
            if self.fn is not None and o.fn is not None and self.fn[0] == o.fn[0]:
                return mkbox(self.fn[0], r_norm([r for a, b, d1, k1, d2, k2 in overlay(self, o)
                                                 for r in preimage(((a, b, d1 - d2, k1 - k2),), op, 0)]))
            sl, sh, ol, oh = self.lo, self.hi, o.lo, o.hi
            if sh is not None and ol is not None and sh < ol:
                return op in ('<', '<=')
            if sl is not None and oh is not None and sl > oh:
                return op in ('>', '>=')
            if self.e.eq(o.e):
                return op in ('<=', '>=', '==')
            if op == '<':
                return mkbool(self.e < o.e)
            if op == '<=':
                return mkbool(self.e <= o.e)
            if op == '>':
                return mkbool(self.e > o.e)
            if op == '>=':
                return mkbool(self.e >= o.e)
            return mkbool(self.e == o.e)
        if isinstance(o, float):
            if o == math.inf:
                return op in ('<', '<=')
            if o == -math.inf:
                return op in ('>', '>=')
            if o.is_integer():
                return self._cmp(int(o), op)
            if o != o or op == '==':
                return False
            f = math.floor(o)
            return self._cmp(f, '<=') if op in ('<', '<=') else self._cmp(f, '>')
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '==')
        return True if r is NotImplemented else snot(r)

    # -- arithmetic --
    def __add__(self, o):
        o = _toint(o)
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                return self
            if self.fn is not None:
                return mkfn(self.fn[0], tuple((a, b, d + o, k) for a, b, d, k in segs_now(self)), min(self.al, _tz(o)))
            return mkint(self.e + o, _ad(self.lo, o), _ad(self.hi, o), min(self.al, _tz(o)))
        if isinstance(o, SymInt):
            if self.fn is not None and o.fn is not None and self.fn[0] == o.fn[0]:
                return mkfn(self.fn[0], tuple((a, b, d1 + d2, k1 + k2) for a, b, d1, k1, d2, k2 in overlay(self, o)),
                            min(self.al, o.al))
            return mkint(self.e + o.e, _ad(self.lo, o.lo), _ad(self.hi, o.hi), min(self.al, o.al))
        if isinstance(o, float):
            return float(self) + o
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        o = _toint(o)
        if isinstance(o, int):
            return self + (-int(o))
        if isinstance(o, SymInt):
            if self is o:
                return 0
            if self.fn is not None and o.fn is not None and self.fn[0] == o.fn[0]:
                return mkfn(self.fn[0], tuple((a, b, d1 - d2, k1 - k2) for a, b, d1, k1, d2, k2 in overlay(self, o)),
                            min(self.al, o.al))
            if self.e.eq(o.e):
                return 0
            return mkint(self.e - o.e, _sb(self.lo, o.hi), _sb(self.hi, o.lo), min(self.al, o.al))
        if isinstance(o, float):
            return float(self) - o
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, int):
            o = int(o)
            if self.fn is not None:
                return -self + o
            return mkint(o - self.e, _sb(o, self.hi), _sb(o, self.lo), min(self.al, _tz(o)))
        if isinstance(o, float):
            return o - float(self)
        return NotImplemented

    def __neg__(self):
        if self.fn is not None:
            return mkfn(self.fn[0], tuple((a, b, -d, -k) for a, b, d, k in segs_now(self)), self.al)
        return mkint(-self.e, _ng(self.hi), _ng(self.lo), self.al)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        return ite(self >= 0, self, -self)

    def __mul__(self, o):
        o = _toint(o)
        if isinstance(o, SymInt):
            if _width(o) <= _width(self):
                o = E.pick(o)
            else:
                return o * E.pick(self)
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                return 0
            if o == 1:
                return self
            if self.fn is not None:
                return mkfn(self.fn[0], tuple((a, b, d * o, k * o) for a, b, d, k in segs_now(self)),
                            self.al + _tz(o))
            a, b = _ml(self.lo, o), _ml(self.hi, o)
            if o < 0:
                a, b = b, a
            return mkint(self.e * o, a, b, self.al + _tz(o))
        if isinstance(o, float):
            return float(self) * o
        if isinstance(o, (list, tuple, str, bytes)):
            return o * E.pick(self)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        o = _toint(o)
        if isinstance(o, SymInt):
            o = E.pick(o)
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o < 0:
                return (-self) // (-o)
            if o == 1:
                return self
            if self.lo is not None and self.hi is not None and self.lo // o == self.hi // o:
                return self.lo // o
            if self.fn is not None:
                ps = _pieces(segs_now(self), o, '//')
                if ps is not None:
                    return mkfn(self.fn[0], ps)
            al = max(0, self.al - _tz(o)) if (o & (o - 1)) == 0 else 0
            return mkint(self.e / o, None if self.lo is None else self.lo // o,
                         None if self.hi is None else self.hi // o, al)
        return NotImplemented

    def __rfloordiv__(self, o):
        return o // E.pick(self)

    def __mod__(self, o):
        o = _toint(o)
        if isinstance(o, SymInt):
            o = E.pick(o)
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o < 0:
                return -((-self) % (-o))
            if o == 1:
                return 0
            if self.lo is not None and self.hi is not None and self.lo // o == self.hi // o:
                return self - (self.lo // o) * o
            if self.al and (o & (o - 1)) == 0 and self.al >= _tz(o):
                return 0
            if self.fn is not None:
                ps = _pieces(segs_now(self), o, '%')
                if ps is not None:
                    return mkfn(self.fn[0], ps)
            return mkint(self.e % o, 0, o - 1, min(self.al, _tz(o)))
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, int):
            return o % E.pick(self)
        return NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return divmod(o, E.pick(self))

    def __truediv__(self, o):
        if isinstance(o, Sym):
            o = int(o)
        return E.pick(self) / o

    def __rtruediv__(self, o):
        return o / E.pick(self)

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            o = int(o)
        if mod is None and o == 2:
            return self * self
        return pow(E.pick(self), o, mod)

    def __rpow__(self, o):
        return o ** E.pick(self)

    def __lshift__(self, o):
        o = int(o)
        if o < 0:
            raise ValueError('negative shift count')
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << E.pick(self)

    def __rshift__(self, o):
        o = int(o)
        if o < 0:
            raise ValueError('negative shift count')
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> E.pick(self)

    def __and__(self, o):
        o = _toint(o)
        if isinstance(o, int):
            o = int(o)
            if o < 0:
                return self - (self & ~o)
            if o == 0:
                return 0
            if self.lo is not None and self.lo >= 0 and self.hi is not None and self.hi < 1 << self.al:
                return 0
            r = 0
            sh = 0
            while o >> sh:
                if not (o >> sh) & 1:
                    sh += 1
                    continue
                n = 0
                while (o >> (sh + n)) & 1:
                    n += 1
                r = ((self // (1 << sh)) % (1 << n)) * (1 << sh) + r
                sh += n
            return r
        if isinstance(o, SymInt):
            return _bitop(self, o, '&')
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        o = _toint(o)
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                return self
            if 0 <= o < (1 << self.al):
                return self + o
            return self + o - (self & o)
        if isinstance(o, SymInt):
            for a, b in ((self, o), (o, self)):
                if b.lo is not None and b.lo >= 0 and b.hi is not None and b.hi < (1 << a.al):
                    return a + b
            return _bitop(self, o, '|')
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        o = _toint(o)
        if isinstance(o, int):
            return self + int(o) - 2 * (self & int(o))
        if isinstance(o, SymInt):
            return _bitop(self, o, '^')
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    # -- int methods --
    def bit_length(self):
        n = 0
        x = abs(self)
        while x >= (1 << n):
            n += 1
        return n

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import seqs
        length = int(length)
        if signed:
            if not ((self >= -(1 << (8 * length - 1))) & (self < (1 << (8 * length - 1)))
                    if length else self == 0):
                raise OverflowError('int too big to convert')
        else:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if not self < (1 << (8 * length)):
                raise OverflowError('int too big to convert')
        out = []
        for k in range(length):
            b = (self // (1 << (8 * k))) % 256
            if isinstance(b, SymInt):
                b = rebound(b, 0, 255, ('le', self, k, length), 0)
            out.append(b)
        if byteorder == 'big':
            out.reverse()
        return seqs.mkbytes(out)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True


def _ad(a, b):
    return None if a is None or b is None else a + b


def _sb(a, b):
    return None if a is None or b is None else a - b


def _ng(a):
    return None if a is None else -a


def _ml(a, b):
    return None if a is None else a * b


def _tz(n):
    if n == 0:
        return 64
    return (n & -n).bit_length() - 1


def _width(x):
    if x.lo is None or x.hi is None:
        return math.inf
    return x.hi - x.lo


def _bitop(a, b, op):
    if a.lo is None or b.lo is None or a.lo < 0 or b.lo < 0 or a.hi is None or b.hi is None:
        y = E.pick(b)
        return a & y if op == '&' else a | y if op == '|' else a ^ y
    n = max(a.hi.bit_length(), b.hi.bit_length(), 1)
    if n > 16:
        y = E.pick(b)
        return a & y if op == '&' else a | y if op == '|' else a ^ y
    r = 0
    for k in range(n):
        x, y = (a // (1 << k)) % 2, (b // (1 << k)) % 2
        if op == '&':
            t = ite(sand(x == 1, y == 1), 1, 0)
        elif op == '|':
            t = ite(sor(x == 1, y == 1), 1, 0)
        else:
            t = ite(snot(x == y), 1, 0)
        r = t * (1 << k) + r
    return r


def ite(c, a, b):
    """Merge of two integer/boolean values."""
    if c is True:
        return a
    if c is False:
        return b
    if c.box is not None and c.neg:
        c, a, b = SymBool(None, c.box), b, a
    if c.box is not None and len(c.box) == 1:
        vid, R = c.box[0]
        D = E.dom[vid]
        R = r_and(D, R)
        if not R:
            return b
        if R == D:
            return a
        c = SymBool(None, ((vid, R),))
    else:
        vid = None
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return snot(c)
        if a is True:
            return sor(c, b)
        if a is False:
            return sand(snot(c), b)
        if b is True:
            return sor(snot(c), a)
        if b is False:
            return sand(c, a)
        if c.box is not None and _single(c) and _single(a) and _single(b) and a.box[0][0] == b.box[0][0] == vid:
            return sor(sand(c, a), sand(snot(c), b))
        return mkbool(_if(c.e, bexpr(a), bexpr(b)))
    al = a.al if isinstance(a, SymInt) else _tz(int(a)) if not isinstance(a, Sym) else 0
    bl = b.al if isinstance(b, SymInt) else _tz(int(b)) if not isinstance(b, Sym) else 0
    if vid is not None:
        fa, fb = as_segs(a, vid), as_segs(b, vid)
        if fa is not None and fb is not None:
            return mkfn(vid, tuple(sorted(restrict(fa, R) + restrict(fb, r_sub(D, R)))), min(al, bl))
    if same_int(a, b):
        return a
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    lo = None if alo is None or blo is None else min(alo, blo)
    hi = None if ahi is None or bhi is None else max(ahi, bhi)
    ea, eb = iexpr(a), iexpr(b)
    if ea.eq(eb):
        return a
    return mkint(_if(c.e, ea, eb), lo, hi, min(al, bl))


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    return int(x), int(x)


def is_int(x):
    return isinstance(x, (int, SymInt, SymBool))


def new_var(name, expr, ranges, kind):
    if name in E.var:
        raise Unsupported('variable %s declared twice' % name)
    E.var[name] = (expr, ranges, kind)
    E.dom[name] = ranges


def fresh_int(name, lo, hi, ranges=None):
    """A new integer in lo..hi (or in the given ranges)."""
    v = z3.Int(name)
    if lo is None or hi is None:
        if lo is not None:
            E.declare(v >= lo)
        elif hi is not None:
            E.declare(v <= hi)
        return SymInt(v, lo, hi)
    D = ranges or ((lo, hi),)
    new_var(name, v, D, 'int')
    es = [_and(v >= a, v <= b) if a != b else v == a for a, b in D]
    E.declare(es[0] if len(es) == 1 else _or(*es))
    x = SymInt(v, lo, hi)
    x.fn = (name, tuple((a, b, 0, 1) for a, b in D))
    x.fd = D
    return x


def fresh_bool(name):
    new_var(name, z3.Bool(name), ((0, 1),), 'bool')
    return SymBool(None, ((name, ((1, 1),)),))
