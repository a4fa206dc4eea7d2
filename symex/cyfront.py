"""Cython sources -> Python syntax trees with the semantics of C variables.

The real Cython parser reads the .pyx/.pxd files; the tree is rewritten into a
Python tree in which C-typed variables, arguments and attributes convert what
is stored in them (range checks, type checks) and C integer arithmetic wraps.
Variables without a declared type are treated as Python objects.
"""
import ast
import os
import sys

CY = '__cy__'
_VENV = '/opt/venv/lib/python3.12/site-packages'
_loaded = None


def _cython():
    global _loaded
    if _loaded is None:
        sys.path.insert(0, _VENV)
        try:
            from Cython.Compiler import Main, Errors, Scanning, Options, Nodes, ExprNodes
        finally:
            sys.path.remove(_VENV)
        _loaded = (Main, Errors, Scanning, Options, Nodes, ExprNodes)
    return _loaded


class CannotEncode(Exception):
    pass


def parse(path, fullname, pxd=False):
    Main, Errors, Scanning, Options, Nodes, ExprNodes = _cython()
    from Cython.Compiler.Main import Context
    opts = Options.CompilationOptions(Options.default_options, language_level=3)
    ctx = Context.from_options(opts)
    src = Scanning.FileSourceDescriptor(path, os.path.basename(path))
    Errors.init_thread()
    scope = ctx.find_module(fullname, pos=(src, 1, 0), need_pxd=0)
    return ctx.parse(src, scope, pxd=pxd, full_module_name=fullname)


INTS = {'char': 8, 'short': 16, 'int': 32, 'long': 64, 'longlong': 64, 'Py_ssize_t': 64, 'size_t': 64, 'ssize_t': 64,
        'int8_t': 8, 'int16_t': 16, 'int32_t': 32, 'int64_t': 64, 'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32,
        'uint64_t': 64}
KNOWN_EXTERN = {'INT_MAX': 2147483647, 'INT_MIN': -2147483648, 'UINT_MAX': 4294967295, 'SHRT_MAX': 32767,
                'SHRT_MIN': -32768, 'LONG_MAX': 2 ** 63 - 1, 'LONG_MIN': -2 ** 63, 'USHRT_MAX': 65535,
                'INT32_MAX': 2147483647, 'INT16_MAX': 32767, 'INT64_MAX': 2 ** 63 - 1, 'LLONG_MAX': 2 ** 63 - 1}
OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
       '<<': ast.LShift, '>>': ast.RShift, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '@': ast.MatMult}
CMPS = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is,
        'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn}
BUILTIN_OBJ = {'list', 'dict', 'tuple', 'set', 'str', 'bytes', 'frozenset', 'bytearray', 'unicode'}


class Front:
    """One module (its .pxd merged)."""

    def __init__(self, pkgdir, fullname):
        self.fullname = fullname
        name = fullname.rsplit('.', 1)[-1]
        self.dir = pkgdir
        self.pyx = os.path.join(pkgdir, name + '.pyx')
        self.pxd = os.path.join(pkgdir, name + '.pxd')
        self.classes = {}       # cdef class -> {attr: type}
        self.methods = {}       # cdef class -> {method: CFuncDef signature types}
        self.externs = {}
        self.cimports = []      # (module, level, [(name, as)])
        self.cls = None
        self.locals = {}
        self.mod_types = {}

    # -- types -------------------------------------------------------------
    def ctype(self, base, decl=None):
        """('int', bits, signed) | ('bint',) | ('obj',) | ('builtin', n) | ('cls', n) | ('mv', elem, ndim) | ('float',)"""
        k = type(base).__name__
        if k == 'CConstOrVolatileTypeNode':
            return self.ctype(base.base_type, decl)
        if k == 'MemoryViewSliceTypeNode':
            return ('mv', self.ctype(base.base_type_node), len(base.axes))
        if k == 'CSimpleBaseTypeNode':
            n = base.name
            if n is None:
                return ('obj',)
            if base.is_basic_c_type:
                if n == 'bint':
                    return ('bint',)
                if n in ('float', 'double'):
                    return ('float',)
                if n == 'void':
                    return ('void',)
                if n in INTS:
                    bits = INTS[n]
                    if n == 'int' and base.longness:
                        bits = 64
                    if n == 'int' and base.longness < 0:
                        bits = 16
                    return ('int', bits, bool(base.signed) and n != 'size_t' and not n.startswith('uint'))
                if n == 'object':
                    return ('obj',)
                raise CannotEncode('C type %s' % n)
            if n == 'object':
                return ('obj',)
            if n in INTS:
                return ('int', INTS[n], not (n == 'size_t' or n.startswith('uint')))
            if n in BUILTIN_OBJ:
                return ('builtin', 'str' if n == 'unicode' else n)
            return ('cls', n)
        if k in ('TemplatedTypeNode', 'CComplexBaseTypeNode'):
            return ('obj',)
        raise CannotEncode('type node %s' % k)

    def _decl_name(self, d):
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name
        if k == 'CFuncDeclaratorNode':
            return self._decl_name(d.base)
        raise CannotEncode('declarator %s' % k)

    # -- .pxd ----------------------------------------------------------------
    def declarations(self, body):
        for st in self._stats(body):
            k = type(st).__name__
            if k == 'CDefExternNode':
                for s in self._stats(st.body):
                    if type(s).__name__ == 'CVarDefNode':
                        for d in s.declarators:
                            n = self._decl_name(d)
                            if type(d).__name__ == 'CNameDeclaratorNode':
                                if n not in KNOWN_EXTERN:
                                    raise CannotEncode('extern %s' % n)
                                self.externs[n] = KNOWN_EXTERN[n]
                            else:
                                raise CannotEncode('extern function %s' % n)
            elif k == 'CClassDefNode':
                at = self.classes.setdefault(st.class_name, {})
                for s in self._stats(st.body):
                    if type(s).__name__ == 'CVarDefNode':
                        for d in s.declarators:
                            if type(d).__name__ == 'CFuncDeclaratorNode':
                                continue
                            at[self._decl_name(d)] = self.ctype(s.base_type, d)
            elif k == 'FromCImportStatNode':
                self.cimports.append((str(st.module_name), st.relative_level or 0,
                                      [(str(x[1]), str(x[2] or x[1])) for x in st.imported_names]))

    def _stats(self, body):
        if body is None:
            return []
        if type(body).__name__ == 'StatListNode':
            out = []
            for s in body.stats:
                out.extend(self._stats(s))
            return out
        if type(body).__name__ == 'CompilerDirectivesNode':
            return self._stats(body.body)
        return [body]

    # -- module ---------------------------------------------------------------
    def translate(self):
        if os.path.exists(self.pxd):
            self.declarations(parse(self.pxd, self.fullname, True).body)
        tree = parse(self.pyx, self.fullname)
        self.declarations(tree.body)
        # attribute types of cimported classes
        for mod, level, names in self.cimports:
            pkg = self.fullname.split('.')[:-1]
            full = '.'.join(pkg[:len(pkg) - (level - 1)] + mod.split('.')) if level else mod
            p = os.path.join(self.dir, mod.split('.')[-1] + '.pxd')
            if os.path.exists(p):
                f = Front(self.dir, full)
                f.declarations(parse(p, full, True).body)
                for n, a in names:
                    if n in f.classes:
                        self.classes.setdefault('@' + a, f.classes[n])
        body = []
        for n, v in self.externs.items():
            body.append(ast.Assign([ast.Name(n, ast.Store())], ast.Constant(v)))
        for mod, level, names in self.cimports:
            body.append(ast.ImportFrom(mod, [ast.alias(n, None if n == a else a) for n, a in names], level))
        body.extend(self.block(tree.body))
        return ast.fix_missing_locations(ast.Module(body, []))

    def attrs_of(self, cls):
        return self.classes.get('@' + cls) or self.classes.get(cls) or {}

    # -- static types of expressions ---------------------------------------------
    def typ(self, n):
        k = type(n).__name__
        if k == 'NameNode':
            if n.name in self.locals:
                return self.locals[n.name]
            if n.name in self.externs:
                return ('int', 32, True)
            return ('obj',)
        if k == 'AttributeNode':
            t = self.typ(n.obj)
            if t[0] == 'cls':
                return self.attrs_of(t[1]).get(n.attribute, ('obj',))
            return ('obj',)
        if k == 'IndexNode':
            t = self.typ(n.base)
            if t[0] == 'mv':
                return t[1]
            return ('obj',)
        if k == 'IntNode':
            return ('lit',)
        if k == 'BoolNode':
            return ('bint',)
        if k == 'CondExprNode':
            return self._promote(self.typ(n.true_val), self.typ(n.false_val))
        if k == 'TypecastNode' and n.base_type is not None:
            return self.ctype(n.base_type)
        if k in ('UnaryMinusNode', 'UnaryPlusNode', 'TildeNode'):
            t = self.typ(n.operand)
            return self._promote(t, ('lit',)) if t[0] in ('int', 'bint') else t
        if hasattr(n, 'operand1') and hasattr(n, 'operator') and n.operator in OPS and k not in ('PrimaryCmpNode', 'BoolBinopNode'):
            return self._promote(self.typ(n.operand1), self.typ(n.operand2))
        return ('obj',)

    def _promote(self, a, b):
        ok = ('int', 'bint', 'lit')
        if a[0] not in ok or b[0] not in ok:
            return ('obj',)
        if a[0] == 'lit' and b[0] == 'lit':
            return ('lit',)

        def rank(t):
            if t[0] == 'int':
                return (max(t[1], 32), t[2] or t[1] < 32)
            if t[0] == 'lit':
                return (32, True)
            return (32, True)
        x, y = rank(a), rank(b)
        bits = max(x[0], y[0])
        signed = all(s for w, s in (x, y) if w == bits)
        return ('int', bits, signed)

    # -- emission helpers -----------------------------------------------------
    def cy(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name(CY, ast.Load()), name, ast.Load()), list(args), [])

    def tconst(self, t):
        if t[0] == 'cls':
            return ast.Tuple([ast.Constant('cls'), ast.Name(t[1], ast.Load()), ast.Constant(t[1])], ast.Load())
        if t[0] == 'mv':
            return ast.Tuple([ast.Constant('mv'), self.tconst(t[1]), ast.Constant(t[2])], ast.Load())
        return ast.Tuple([ast.Constant(x) for x in t], ast.Load())

    def conv(self, t, e):
        if t[0] in ('obj', 'lit', 'void'):
            return e
        if t[0] == 'cls':
            return self.cy('conv_cls', ast.Name(t[1], ast.Load()), e)
        return self.cy('conv', self.tconst(t), e)

    def loc(self, node, n):
        try:
            node.lineno = n.pos[1]
            node.col_offset = n.pos[2]
        except Exception:
            pass
        return node

    # -- statements -------------------------------------------------------------
    def block(self, body):
        out = []
        for s in self._stats(body):
            r = self.stat(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def body(self, b):
        r = self.block(b)
        return r or [ast.Pass()]

    def stat(self, s):
        f = getattr(self, 's_' + type(s).__name__, None)
        if f is None:
            raise CannotEncode('statement %s at %s' % (type(s).__name__, s.pos[1:]))
        r = f(s)
        for x in (r if isinstance(r, list) else [r]):
            if x is not None:
                self.loc(x, s)
        return r

    def s_PassStatNode(self, s):
        return ast.Pass()

    def s_BreakStatNode(self, s):
        return ast.Break()

    def s_ContinueStatNode(self, s):
        return ast.Continue()

    def s_ExprStatNode(self, s):
        return ast.Expr(self.expr(s.expr))

    def s_CDefExternNode(self, s):
        return None

    def s_FromCImportStatNode(self, s):
        return None

    def s_CImportStatNode(self, s):
        return None

    def s_CVarDefNode(self, s):
        if self.cls is not None and not self.infn:
            return None      # attributes: handled with the class
        out = []
        for d in s.declarators:
            n = self._decl_name(d)
            t = self.ctype(s.base_type, d)
            tab = self.locals if self.infn else self.mod_types
            tab[n] = t
            dflt = getattr(d, 'default', None)
            if dflt is not None:
                out.append(ast.Assign([ast.Name(n, ast.Store())], self.conv(t, self.expr(dflt))))
            elif self.infn and t[0] in ('obj', 'cls', 'builtin'):
                pass
        return out

    infn = False
    result = ('obj',)

    def s_FromImportStatNode(self, s):
        m = s.module
        level = m.level if m.level is not None and m.level > 0 else 0
        name = m.module_name.value if m.module_name is not None else ''
        items = []
        for n, t in s.items:
            items.append(ast.alias(str(n), None if t.name == n else str(t.name)))
        return ast.ImportFrom(str(name) or None, items, level)

    def s_GlobalNode(self, s):
        return ast.Global([str(n) for n in s.names])

    def s_NonlocalNode(self, s):
        return ast.Nonlocal([str(n) for n in s.names])

    def s_CClassDefNode(self, s):
        old, self.cls = self.cls, s.class_name
        body = [ast.Assign([ast.Name('__slots__', ast.Store())], ast.Tuple([ast.Constant('__dict__')], ast.Load()))]
        body = []
        for a, t in self.attrs_of(s.class_name).items():
            if t[0] == 'cls':
                lam = ast.Lambda(_noargs(), ast.Name(t[1], ast.Load()))
                v = self.cy('field_cls', ast.Constant(a), lam)
            else:
                v = self.cy('field', ast.Constant(a), self.tconst(t))
            body.append(ast.Assign([ast.Name(a, ast.Store())], v))
        body.extend(self.block(s.body))
        self.cls = old
        bases = []
        if getattr(s, 'bases', None) is not None:
            bases = [self.expr(b) for b in s.bases.args]
        return ast.ClassDef(str(s.class_name), bases, [], body or [ast.Pass()], [], type_params=[])

    def s_PyClassDefNode(self, s):
        old = self.cls
        self.cls = None
        body = self.body(s.body)
        self.cls = old
        bases = []
        if s.bases is not None:
            bases = [self.expr(b) for b in s.bases.args]
        if s.doc:
            body.insert(0, ast.Expr(ast.Constant(str(s.doc))))
        return ast.ClassDef(str(s.name), bases, [], body, [self.expr(d.decorator) for d in (s.decorators or [])],
                            type_params=[])

    def _fn(self, s, name, args, star, starstar, decorators):
        oldl, oldf = self.locals, self.infn
        self.locals = dict(oldl) if oldf else {}
        self.infn = True
        pre = []
        pos, defaults, kwonly, kwd = [], [], [], []
        for i, a in enumerate(args):
            t = ('obj',)
            d = a.declarator
            n = self._decl_name(d)
            if n == '':
                n = a.base_type.name
            else:
                t = self.ctype(a.base_type, d)
            if i == 0 and self.cls is not None and not any(
                    getattr(getattr(x, 'decorator', None), 'name', '') in ('staticmethod', 'classmethod') for x in decorators or []):
                t = ('cls', self.cls)
                self.locals[n] = t
                t = ('obj',)
            else:
                self.locals[n] = t
            if t[0] not in ('obj',):
                pre.append(ast.Assign([ast.Name(n, ast.Store())], self.conv(t, ast.Name(n, ast.Load()))))
            if getattr(a, 'kw_only', False):
                kwonly.append(ast.arg(n))
                kwd.append(None if a.default is None else self.expr(a.default))
            else:
                pos.append(ast.arg(n))
                if a.default is not None:
                    defaults.append(self.expr(a.default))
        # declared types first, so that uses before/after agree
        self._collect(s.body)
        body = self.body(s.body)
        a = ast.arguments(posonlyargs=[], args=pos, vararg=None if not star else ast.arg(str(star.name)),
                          kwonlyargs=kwonly, kw_defaults=kwd,
                          kwarg=None if not starstar else ast.arg(str(starstar.name)), defaults=defaults)
        self.locals, self.infn = oldl, oldf
        return ast.FunctionDef(str(name), a, pre + body, [self.expr(d.decorator) for d in (decorators or [])],
                               type_params=[])

    def _collect(self, body):
        for st in self._stats(body):
            if type(st).__name__ == 'CVarDefNode':
                for d in st.declarators:
                    self.locals[self._decl_name(d)] = self.ctype(st.base_type, d)

    def s_DefNode(self, s):
        old, self.result = self.result, ('obj',)
        fn = self._fn(s, s.name, s.args, s.star_arg, s.starstar_arg, s.decorators)
        self.result = old
        return fn

    def s_CFuncDefNode(self, s):
        d = s.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        rt = self.ctype(s.base_type)
        old, self.result = self.result, rt
        fn = self._fn(s, self._decl_name(d), d.args, None, None, s.decorators)
        self.result = old
        if rt[0] in ('int', 'bint'):
            fn.decorator_list.append(self.cy('returns', self.tconst(rt)))
        return fn

    def target(self, n):
        """(ast target, type)"""
        k = type(n).__name__
        if k == 'NameNode':
            return ast.Name(str(n.name), ast.Store()), self.typ(n)
        if k == 'AttributeNode':
            return ast.Attribute(self.expr(n.obj), str(n.attribute), ast.Store()), ('obj',)   # descriptor converts
        if k in ('IndexNode', 'SliceIndexNode'):
            e = self.expr(n)
            e.ctx = ast.Store()
            return e, ('obj',)
        if k in ('TupleNode', 'ListNode'):
            return None, None
        if k == 'StarredUnpackingNode':
            t, ty = self.target(n.target)
            return ast.Starred(t, ast.Store()), ty
        raise CannotEncode('target %s' % k)

    def _typed_target(self, n):
        t, ty = self.target(n)
        return t is None or ty[0] not in ('obj', 'lit')

    def _tmp(self):
        self._n = getattr(self, '_n', 0) + 1
        return '__c%d__' % self._n

    def assign(self, n, value, src=None):
        """statements storing the ast expression `value` in the Cython target n"""
        k = type(n).__name__
        if k in ('TupleNode', 'ListNode'):
            tmps, post = [], []
            for x in n.args:
                kk = type(x).__name__
                star = kk == 'StarredUnpackingNode'
                nm = self._tmp()
                t = ast.Name(nm, ast.Store())
                tmps.append(ast.Starred(t, ast.Store()) if star else t)
                post.extend(self.assign(x.target if star else x, ast.Name(nm, ast.Load())))
            return [ast.Assign([ast.Tuple(tmps, ast.Store())], value)] + post
        t, ty = self.target(n)
        if k == 'AttributeNode' and src is not None:
            ty = self.typ(n)
        elif src is None:
            src = ('obj',)
        if ty[0] == 'int' and src[0] == 'int':
            return [ast.Assign([t], self.cy('cast', self.tconst(ty), value))]    # between C variables: no check
        if k == 'AttributeNode':
            ty = ('obj',)
        return [ast.Assign([t], self.conv(ty, value))]

    def s_SingleAssignmentNode(self, s):
        k = type(s.rhs).__name__
        if k == 'ImportNode':
            m = s.rhs
            name = str(m.module_name.value)
            level = m.level if m.level and m.level > 0 else 0
            if level:
                raise CannotEncode('relative plain import')
            if m.get_top_level_module or str(s.lhs.name) == name:
                return ast.Import([ast.alias(name, None)])
            return ast.Import([ast.alias(name, str(s.lhs.name))])
        return self.assign(s.lhs, self.expr(s.rhs), self.typ(s.rhs))

    def s_CascadedAssignmentNode(self, s):
        nm = self._tmp()
        out = [ast.Assign([ast.Name(nm, ast.Store())], self.expr(s.rhs))]
        for l in s.lhs_list:
            out.extend(self.assign(l, ast.Name(nm, ast.Load()), self.typ(s.rhs)))
        return out

    def s_ParallelAssignmentNode(self, s):
        out, names = [], []
        for st in s.stats:
            nm = self._tmp()
            out.append(ast.Assign([ast.Name(nm, ast.Store())], self.expr(st.rhs)))
            names.append((st.lhs, nm, self.typ(st.rhs)))
        for l, nm, t in names:
            out.extend(self.assign(l, ast.Name(nm, ast.Load()), t))
        return out

    def s_InPlaceAssignmentNode(self, s):
        t = self.typ(s.lhs)
        op = s.operator
        lhs, _ = self.target(s.lhs)
        if t[0] in ('int', 'bint'):
            pt = self._promote(t, self.typ(s.rhs))
            e = self._arith(op, pt, self.expr(s.lhs), self.expr(s.rhs), s)
            if pt[0] == 'int':
                e = self.cy('cast', self.tconst(t), e)
                return [ast.Assign([lhs], e)]
            return [ast.Assign([lhs], self.conv(t, e))]
        return ast.AugAssign(lhs, OPS[op](), self.expr(s.rhs))

    def s_ReturnStatNode(self, s):
        e = None if s.value is None else self.expr(s.value)
        if e is not None and self.result[0] == 'int' and self.typ(s.value)[0] == 'int':
            e = self.cy('cast', self.tconst(self.result), e)
        return ast.Return(e)

    def s_RaiseStatNode(self, s):
        e = None if s.exc_type is None else self.expr(s.exc_type)
        if s.exc_value is not None:
            raise CannotEncode('raise with value')
        return ast.Raise(e, None if s.cause is None else self.expr(s.cause))

    def s_ReraiseStatNode(self, s):
        return ast.Raise(None, None)

    def s_AssertStatNode(self, s):
        return ast.Pass()    # compiled in, but never the only guard: kept simple
    
    def s_DelStatNode(self, s):
        out = []
        for a in s.args:
            e = self.expr(a)
            e.ctx = ast.Del()
            out.append(e)
        return ast.Delete(out)

    def s_IfStatNode(self, s):
        orelse = self.block(s.else_clause)
        for c in reversed(s.if_clauses):
            orelse = [ast.If(self.expr(c.condition), self.body(c.body), orelse)]
        return orelse[0]

    def s_WhileStatNode(self, s):
        return ast.While(self.expr(s.condition), self.body(s.body), self.block(s.else_clause))

    def s_ForInStatNode(self, s):
        it = self.expr(s.iterator.sequence)
        if self._typed_target(s.target) or type(s.target).__name__ not in ('NameNode',):
            nm = self._tmp()
            pre = self.assign(s.target, ast.Name(nm, ast.Load()))
            return ast.For(ast.Name(nm, ast.Store()), it, pre + self.body(s.body), self.block(s.else_clause))
        t, _ = self.target(s.target)
        return ast.For(t, it, self.body(s.body), self.block(s.else_clause))

    def s_TryExceptStatNode(self, s):
        hs = []
        for c in s.except_clauses:
            pat = None
            if c.pattern:
                ps = [self.expr(p) for p in c.pattern]
                pat = ps[0] if len(ps) == 1 else ast.Tuple(ps, ast.Load())
            hs.append(ast.ExceptHandler(pat, None if c.target is None else str(c.target.name), self.body(c.body)))
        return ast.Try(self.body(s.body), hs, self.block(s.else_clause), [])

    def s_TryFinallyStatNode(self, s):
        return ast.Try(self.body(s.body), [], [], self.body(s.finally_clause))

    def s_WithStatNode(self, s):
        tgt = None
        if s.target is not None:
            tgt, _ = self.target(s.target)
        return ast.With([ast.withitem(self.expr(s.manager), tgt)], self.body(s.body))

    def s_GILStatNode(self, s):
        return self.body(s.body)

    def s_PropertyNode(self, s):
        raise CannotEncode('property')

    # -- expressions ----------------------------------------------------------
    def expr(self, n):
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            if hasattr(n, 'operand1') and getattr(n, 'operator', None) in OPS:
                f = self.e_binop
            elif hasattr(n, 'operand') and type(n).__name__ in ('UnaryMinusNode', 'UnaryPlusNode', 'TildeNode'):
                f = self.e_unary
            else:
                raise CannotEncode('expression %s at %s' % (type(n).__name__, n.pos[1:]))
        return self.loc(f(n), n)

    def e_NameNode(self, n):
        return ast.Name(str(n.name), ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(self.expr(n.obj), str(n.attribute), ast.Load())

    def e_IntNode(self, n):
        v = n.value.rstrip('uUlL') if isinstance(n.value, str) else n.value
        return ast.Constant(int(v, 0) if isinstance(v, str) and not (v.startswith('0') and v.isdigit()) else int(v))

    def e_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    def e_StringNode(self, n):
        return ast.Constant(str(n.unicode_value if n.unicode_value is not None else n.value))

    e_IdentifierStringNode = e_StringNode

    def e_BytesNode(self, n):
        return ast.Constant(bytes(n.value, 'latin-1') if isinstance(n.value, str) else bytes(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_EllipsisNode(self, n):
        return ast.Constant(...)

    def e_TupleNode(self, n):
        return ast.Tuple([self.expr(a) for a in n.args], ast.Load())

    def e_ListNode(self, n):
        return ast.List([self.expr(a) for a in n.args], ast.Load())

    def e_SetNode(self, n):
        return ast.Set([self.expr(a) for a in n.args])

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(self.expr(n.target), ast.Load())

    def e_DictNode(self, n):
        return ast.Dict([self.expr(i.key) for i in n.key_value_pairs], [self.expr(i.value) for i in n.key_value_pairs])

    def e_MergedSequenceNode(self, n):
        parts = []
        for a in n.args:
            if type(a).__name__ in ('ListNode', 'TupleNode', 'SetNode'):
                parts.extend(self.expr(x) for x in a.args)
            else:
                parts.append(ast.Starred(self.expr(a), ast.Load()))
        t = getattr(n.type, 'name', 'list')
        return ast.Set(parts) if t == 'set' else ast.Tuple(parts, ast.Load()) if t == 'tuple' else ast.List(parts, ast.Load())

    def e_MergedDictNode(self, n):
        ks, vs = [], []
        for a in n.keyword_args:
            if type(a).__name__ == 'DictNode':
                for i in a.key_value_pairs:
                    ks.append(self.expr(i.key))
                    vs.append(self.expr(i.value))
            else:
                ks.append(None)
                vs.append(self.expr(a))
        return ast.Dict(ks, vs)

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.expr(n.operand))

    def e_unary(self, n):
        op = {'UnaryMinusNode': ast.USub, 'UnaryPlusNode': ast.UAdd, 'TildeNode': ast.Invert}[type(n).__name__]
        e = ast.UnaryOp(op(), self.expr(n.operand))
        t = self.typ(n)
        return self.cy('cast', self.tconst(t), e) if t[0] == 'int' else e

    def _arith(self, op, t, l, r, n):
        if t[0] == 'int':
            if op in ('/', '//', '%'):
                # cdivision is off: Python semantics with a zero check
                e = ast.BinOp(l, (ast.Mod if op == '%' else ast.FloorDiv)(), r)
            elif op == '**':
                e = ast.BinOp(l, ast.Pow(), r)
            else:
                e = ast.BinOp(l, OPS[op](), r)
            return self.cy('cast', self.tconst(t), e)
        return ast.BinOp(l, OPS[op](), r)

    def e_binop(self, n):
        return self._arith(n.operator, self.typ(n), self.expr(n.operand1), self.expr(n.operand2), n)

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.expr(n.operand1), self.expr(n.operand2)])

    def e_PrimaryCmpNode(self, n):
        ops, vals = [CMPS[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        t = self._promote(self.typ(n.operand1), self.typ(n.operand2))
        if c is None and t[0] == 'int' and not t[2]:      # a signed operand is converted
            return ast.Compare(self.cy('cast', self.tconst(t), self.expr(n.operand1)), ops, [self.cy('cast', self.tconst(t), vals[0])])
        while c is not None:
            ops.append(CMPS[c.operator]())
            vals.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(self.expr(n.operand1), ops, vals)

    def e_CondExprNode(self, n):
        return ast.IfExp(self.expr(n.condition if hasattr(n, 'condition') else n.test), self.expr(n.true_val), self.expr(n.false_val))

    def e_IndexNode(self, n):
        k = n.index
        idx = self.expr(k) if type(k).__name__ != 'SliceNode' else self._slice(k)
        if self.typ(n.base)[0] == 'mv':
            return self.cy('mv_get', self.expr(n.base), idx)
        return ast.Subscript(self.expr(n.base), idx, ast.Load())

    def _slice(self, k):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(f(k.start), f(k.stop), f(k.step))

    def e_SliceNode(self, n):
        f = lambda x: ast.Constant(None) if x is None else self.expr(x)
        return ast.Call(ast.Name('slice', ast.Load()), [f(n.start), f(n.stop), f(n.step)], [])

    def e_SliceIndexNode(self, n):
        f = lambda x: None if x is None else self.expr(x)
        return ast.Subscript(self.expr(n.base), ast.Slice(f(n.start), f(n.stop), None), ast.Load())

    def e_SimpleCallNode(self, n):
        return ast.Call(self.expr(n.function), [self.expr(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        pa = n.positional_args
        args = []
        if type(pa).__name__ == 'TupleNode':
            args = [self.expr(a) for a in pa.args]
        elif type(pa).__name__ == 'AsTupleNode':
            args = [ast.Starred(self.expr(pa.arg), ast.Load())]
        elif type(pa).__name__ == 'MergedSequenceNode':
            for a in pa.args:
                if type(a).__name__ in ('ListNode', 'TupleNode'):
                    args.extend(self.expr(x) for x in a.args)
                else:
                    args.append(ast.Starred(self.expr(a), ast.Load()))
        else:
            args = [ast.Starred(self.expr(pa), ast.Load())]
        kws = []
        ka = n.keyword_args
        parts = [] if ka is None else ka.keyword_args if type(ka).__name__ == 'MergedDictNode' else [ka]
        for p in parts:
            if type(p).__name__ == 'DictNode':
                for i in p.key_value_pairs:
                    kws.append(ast.keyword(str(i.key.value), self.expr(i.value)))
            else:
                kws.append(ast.keyword(None, self.expr(p)))
        return ast.Call(self.expr(n.function), args, kws)

    def e_TypecastNode(self, n):
        t = self.ctype(n.base_type) if n.base_type is not None else ('obj',)
        e = self.expr(n.operand)
        if t[0] == 'int':
            src = self.typ(n.operand)
            return self.cy('cast', self.tconst(t), e if src[0] in ('int', 'lit', 'bint') else e)
        return e

    def _bodyof(self, loop):
        """Flatten the loop nest of a comprehension into generators."""
        gens = []
        cur = loop
        while True:
            k = type(cur).__name__
            if k == 'ForInStatNode':
                tgt = self._ctarget(cur.target)
                gens.append(ast.comprehension(tgt, self.expr(cur.iterator.sequence), [], 0))
                cur = cur.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.expr(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == 'StatListNode' and len(cur.stats) == 1:
                cur = cur.stats[0]
            elif k == 'ExprStatNode':
                return gens, cur.expr
            else:
                return gens, cur

    def _ctarget(self, t):
        if type(t).__name__ in ('TupleNode', 'ListNode'):
            return ast.Tuple([self._ctarget(x) for x in t.args], ast.Store())
        return ast.Name(str(t.name), ast.Store())

    def e_ComprehensionNode(self, n):
        gens, leaf = self._bodyof(n.loop)
        k = type(leaf).__name__
        if k == 'DictComprehensionAppendNode':
            return ast.DictComp(self.expr(leaf.key_expr), self.expr(leaf.value_expr), gens)
        t = getattr(n.type, 'name', 'list')
        e = self.expr(leaf.expr)
        return ast.SetComp(e, gens) if t == 'set' else ast.ListComp(e, gens)

    def e_GeneratorExpressionNode(self, n):
        loop = n.loop if getattr(n, 'loop', None) is not None else n.def_node.gbody.body
        gens, leaf = self._bodyof(loop)
        e = leaf.arg if type(leaf).__name__ == 'YieldExprNode' else leaf
        return ast.GeneratorExp(self.expr(e), gens)

    def e_InlinedGeneratorExpressionNode(self, n):
        return self.e_GeneratorExpressionNode(n.gen)

    def e_LambdaNode(self, n):
        args = [ast.arg(self._decl_name(a.declarator) or a.base_type.name) for a in n.args]
        defaults = [self.expr(a.default) for a in n.args if a.default is not None]
        oldf, self.infn = self.infn, True
        e = self.expr(n.result_expr)
        self.infn = oldf
        return ast.Lambda(ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=defaults), e)

    def e_YieldExprNode(self, n):
        return ast.Yield(None if n.arg is None else self.expr(n.arg))

    def e_YieldFromExprNode(self, n):
        return ast.YieldFrom(self.expr(n.arg))

    def e_JoinedStrNode(self, n):
        vals = []
        for v in n.values:
            if type(v).__name__ == 'FormattedValueNode':
                conv = ord(v.conversion_char) if v.conversion_char else -1
                spec = None
                if v.format_spec is not None:
                    s = self.expr(v.format_spec)
                    spec = s if isinstance(s, ast.JoinedStr) else ast.JoinedStr([s])
                vals.append(ast.FormattedValue(self.expr(v.value), conv, spec))
            else:
                vals.append(ast.Constant(str(v.value)))
        return ast.JoinedStr(vals)

    def e_FormattedValueNode(self, n):
        return ast.JoinedStr([ast.FormattedValue(self.expr(n.value), -1, None)])

    def e_AssignmentExpressionNode(self, n):
        return ast.NamedExpr(ast.Name(str(n.target_name), ast.Store()), self.expr(n.rhs))


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def _plain(tree):
    """Cython's own string classes -> str (what compile() requires)."""
    for n in ast.walk(tree):
        for k, v in ast.iter_fields(n):
            if isinstance(v, str) and type(v) is not str:
                setattr(n, k, ''.join(v) if not isinstance(v, bytes) else v)
            elif isinstance(v, bytes) and type(v) is not bytes:
                setattr(n, k, bytes(v))
            elif isinstance(v, list):
                setattr(n, k, [''.join(x) if isinstance(x, str) and type(x) is not str else x for x in v])
    return tree


def to_python(pkgdir, fullname):
    return _plain(Front(pkgdir, fullname).translate())
