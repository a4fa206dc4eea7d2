"""Instrumentation of Python syntax trees.

Every operation whose meaning depends on the type of its operands in C code
(calls of builtins, subscripts, membership, formatting, displays) is routed
through `rt`; everything else is left to Python's own protocol, which the
symbolic values implement.
"""
import ast

RT = '__rt__'
LITERAL_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec'}
PURE_CALLS = {'len', 'ord', 'isinstance', 'abs', 'int', 'bool'}


def _rt(name, *args, keywords=()):
    return ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load()), list(args), list(keywords))


def _cheap(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return _cheap(n.value)
    if isinstance(n, ast.UnaryOp):
        return _cheap(n.operand)
    if isinstance(n, ast.BinOp):
        return _cheap(n.left) and _cheap(n.right)
    return False


def _pure(n):
    """No side effects: may be evaluated speculatively (errors discarded)."""
    for k in ast.walk(n):
        if isinstance(k, ast.Call):
            if not (isinstance(k.func, ast.Name) and k.func.id in PURE_CALLS):
                return False
        elif isinstance(k, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp,
                            ast.DictComp, ast.GeneratorExp, ast.JoinedStr, ast.Starred, ast.Dict, ast.Set, ast.List)):
            return False
    return True


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []          # ('f'|'c', name)
        self.tmp = 0

    # -- helpers ----------------------------------------------------------
    def infunc(self):
        return bool(self.scope) and self.scope[-1][0] == 'f'

    def qual(self, name):
        return '.'.join([self.mod] + [s[1] for s in self.scope] + [name])

    # -- definitions ------------------------------------------------------
    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        return a

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self._args(node.args)
        name = self.qual(node.name)
        self.scope.append(('f', node.name))
        body = [self.visit(s) for s in node.body]
        self.scope.pop()
        out = []
        for s in body:
            out.extend(s if isinstance(s, list) else [s])
        k = 1 if out and isinstance(out[0], ast.Expr) and isinstance(out[0].value, ast.Constant) \
            and isinstance(out[0].value.value, str) else 0
        out.insert(k, ast.Expr(_rt('enter', ast.Constant(name))))
        node.body = out
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        node.args = self._args(node.args)
        self.scope.append(('f', '<lambda>'))
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [_rt('base', self.visit(b)) if not isinstance(b, ast.Starred) else b for b in node.bases]
        node.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        self.scope.append(('c', node.name))
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        if not node.simple and node.value is None:
            return ast.Pass()
        if self.infunc() or not isinstance(node.target, ast.Name):
            if node.value is None:
                return node if isinstance(node.target, ast.Name) else ast.Pass()
            return ast.Assign([node.target], node.value)
        return node

    # -- statements -------------------------------------------------------
    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_rt('tick')))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_rt('tick')))
        return node

    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = ast.Name('Exception', ast.Load())
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = _rt('base_exc')
        elif isinstance(node.type, ast.Tuple):
            node.type = ast.Tuple([_rt('base_exc') if isinstance(e, ast.Name) and e.id == 'BaseException' else self.visit(e)
                                   for e in node.type.elts], ast.Load())
        else:
            node.type = self.visit(node.type)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], _rt('mod', ast.Name(node.target.id, ast.Load()), self.visit(node.value)))
        if isinstance(node.target, ast.Subscript) and _cheap(node.target.value) and _cheap_index(node.target.slice):
            import copy
            load = copy.deepcopy(node.target)
            load.ctx = ast.Load()
            for s in ast.walk(load):
                if hasattr(s, 'ctx'):
                    s.ctx = ast.Load()
            rd = self.visit(load)
            tmp = self._tmp()
            return [ast.Assign([ast.Name(tmp, ast.Store())], rd),
                    ast.AugAssign(ast.Name(tmp, ast.Store()), node.op, self.visit(node.value)),
                    self.visit(ast.Assign([node.target], ast.Name(tmp, ast.Load())))]
        self.generic_visit(node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # value is evaluated first, as in the original
            tmp = self._tmp()
            return [ast.Assign([ast.Name(tmp, ast.Store())], node.value),
                    ast.Expr(_rt('setitem', self.visit(t.value), self._index(t.slice), ast.Name(tmp, ast.Load())))]
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def _tmp(self):
        self.tmp += 1
        return '__t%d__' % self.tmp

    # -- expressions ------------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in LITERAL_CALLS and (
                node.func.id != 'super' or not node.args):
            node.args = [self.visit(a) for a in node.args]
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        return _rt('call', f, *args, keywords=kws)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: ast.Constant(None) if x is None else self.visit(x)
            return _rt('mkslice', none(s.lower), none(s.upper), none(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self._index(e) for e in s.elts], ast.Load())
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return _rt('getitem', self.visit(node.value), self._index(node.slice))
        node.value = self.visit(node.value)
        if isinstance(node.slice, ast.Slice):
            node.slice = self._index(node.slice)
        else:
            node.slice = self.visit(node.slice)
        return node

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = self.visit(node.left), self.visit(node.comparators[0])
            if isinstance(op, ast.In):
                return _rt('contains', l, r)
            if isinstance(op, ast.NotIn):
                return _rt('notin', l, r)
            if isinstance(op, (ast.Is, ast.IsNot)):
                x = _rt('isop', l, r)
                return _rt('not_', x) if isinstance(op, ast.IsNot) else x
            return ast.Compare(l, [op], [r])
        ops = node.ops
        vals = [node.left] + node.comparators
        if all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in ops) \
                and all(_cheap(v) for v in vals[2:]) and self.infunc() and not self._in_comp:
            parts = []
            left = self.visit(vals[0])
            for i, o in enumerate(ops):
                r = self.visit(vals[i + 1])
                if i + 1 < len(ops) and not _cheap(vals[i + 1]):
                    tmp = self._tmp()
                    parts.append(ast.Compare(left, [o], [ast.NamedExpr(ast.Name(tmp, ast.Store()), r)]))
                    left = ast.Name(tmp, ast.Load())
                else:
                    parts.append(ast.Compare(left, [o], [r]))
                    left = self.visit(vals[i + 1])
            return _rt('chain_and', *parts)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in ops):
            # a in b in c: rewrite with temporaries
            parts, left = [], self.visit(vals[0])
            for i, o in enumerate(ops):
                r = self.visit(vals[i + 1])
                if i + 1 < len(ops):
                    tmp = self._tmp()
                    r = ast.NamedExpr(ast.Name(tmp, ast.Store()), r)
                    nxt = ast.Name(tmp, ast.Load())
                else:
                    nxt = None
                if isinstance(o, ast.In):
                    parts.append(_rt('contains', left, r))
                elif isinstance(o, ast.NotIn):
                    parts.append(_rt('notin', left, r))
                else:
                    parts.append(ast.Compare(left, [o], [r]))
                left = nxt
            return ast.BoolOp(ast.And(), parts)
        self.generic_visit(node)
        return node

    _in_comp = 0

    def _comp(self, node, f):
        self._in_comp += 1
        try:
            return f(node)
        finally:
            self._in_comp -= 1

    def visit_ListComp(self, node):
        return self._comp(node, self.generic_visit)

    def visit_GeneratorExp(self, node):
        return self._comp(node, self.generic_visit)

    def visit_BoolOp(self, node):
        vals = node.values
        name = 'and_' if isinstance(node.op, ast.And) else 'or_'
        if self.infunc() and not self._in_comp and all(_pure(v) for v in vals[1:]):
            out = self.visit(vals[0])
            for v in vals[1:]:
                self.scope.append(('f', '<lambda>'))
                vv = self.visit(v)
                self.scope.pop()
                out = _rt(name, out, _lam(vv))
            return out
        self.generic_visit(node)
        return node

    def visit_IfExp(self, node):
        if self.infunc() and not self._in_comp and _pure(node.body) and _pure(node.orelse):
            self.scope.append(('f', '<lambda>'))
            b, o = self.visit(node.body), self.visit(node.orelse)
            self.scope.pop()
            return _rt('ifexp', self.visit(node.test), _lam(b), _lam(o))
        self.generic_visit(node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _rt('not_', node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _rt('mod', node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                conv = ast.Constant(None if v.conversion < 0 else v.conversion)
                parts.append(_rt('format_value', self.visit(v.value), conv, spec))
        return _rt('fstring', *parts)

    def visit_Dict(self, node):
        args = []
        for k, v in zip(node.keys, node.values):
            args.append(ast.Attribute(ast.Name(RT, ast.Load()), 'UNPACK', ast.Load()) if k is None else self.visit(k))
            args.append(self.visit(v))
        return _rt('mkdict', *args)

    def visit_Set(self, node):
        return _rt('mkset', *[self.visit(e) for e in node.elts])

    def visit_DictComp(self, node):
        g = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return _rt('dictcomp', self._comp(g, self.generic_visit))

    def visit_SetComp(self, node):
        g = ast.GeneratorExp(node.elt, node.generators)
        return _rt('setcomp', self._comp(g, self.generic_visit))


def _cheap_index(s):
    return not isinstance(s, ast.Slice) and _cheap(s)


def _lam(body):
    return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body)


def instrument(tree, modname):
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    for n in ast.walk(tree):
        if hasattr(n, 'lineno'):
            n.end_lineno, n.end_col_offset = n.lineno, n.col_offset
    return tree


def compile_source(src, filename, modname):
    return compile(instrument(ast.parse(src, filename), modname), filename, 'exec', dont_inherit=True)
