"""Import hook: compile /repo/bit and the harness modules with symbolic hooks."""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import models, core

REPO = os.environ.get('SYMBIT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PURE_FUNCS = {'len', 'ord', 'isinstance', 'int', 'any', 'all', 'abs', 'min', 'max', 'chr', 'bool', 'str', 'bytes',
              'sum', 'range', 'enumerate', 'zip', 'set', 'tuple', 'list'}
PURE_METHODS = {'startswith', 'endswith', 'find', 'rfind', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower',
                'lower', 'upper', 'get', 'bit_length', 'count', 'isspace', 'isascii', 'isdecimal'}


def is_pure(node, extra=()):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_FUNCS:
                continue
            if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                continue
            return False
    return True


def has_scope_trouble(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals'):
            return True
    return False


def nm(name):
    return ast.Name(id=name, ctx=ast.Load())


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def cst(v):
    return ast.Constant(value=v)


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.depth = 0
        self.qual = []
        self.globals_ = [set()]

    def site(self, node):
        self.n += 1
        return cst('%s:%s:%d' % (self.mod, getattr(node, 'lineno', 0), self.n))

    # -- scopes
    def _func(self, node):
        self.depth += 1
        self.qual.append(node.name)
        g = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                g.update(s.names)
        self.globals_.append(g)
        saved = (node.returns, [(a, a.annotation) for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs])
        node.returns = None
        for a, _ in saved[1]:
            a.annotation = None
        self.generic_visit(node)
        body = node.body
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str):
            i = 1
        body.insert(i, ast.Expr(ast.Call(nm('_S_enter'), [cst(self.mod + '.' + '.'.join(self.qual))], [])))
        self.globals_.pop()
        self.qual.pop()
        self.depth -= 1
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        self.qual.pop()
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # -- expressions
    def visit_Call(self, node):
        site = self.site(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec') :
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(node.args) == 1 and not node.keywords and \
                isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and is_pure(node.args[0]) and \
                f.id not in self.globals_[-1]:
            self.generic_visit(node)
            return ast.Call(nm('_S_any'), [site, node.args[0], cst(f.id == 'all')], [])
        self.generic_visit(node)
        return ast.Call(nm('_S_call'), [node.func] + node.args, node.keywords)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(nm('_S_slice'), [s.lower or cst(None), s.upper or cst(None), s.step or cst(None)], [])
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(nm('_S_get'), [node.value, self._slice(node.slice)], [])
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                val = self.visit(node.value)
                obj = self.visit(t.value)
                idx = self.visit(t.slice)
                return ast.copy_location(ast.Expr(ast.Call(nm('_S_set'), [obj, idx, val], [])), node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) and not isinstance(node.target.slice, ast.Slice) and self.depth and \
                not has_scope_trouble(node.value):
            obj = self.visit(node.target.value)
            idx = self.visit(node.target.slice)
            val = self.visit(node.value)
            f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('_old')], kwonlyargs=[], kw_defaults=[],
                                              defaults=[]),
                           body=ast.BinOp(nm('_old'), node.op, val))
            return ast.copy_location(ast.Expr(ast.Call(nm('_S_aug'), [obj, idx, f], [])), node)
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(
                ast.Assign([ast.Name(node.target.id, ast.Store())],
                           ast.Call(nm('_S_mod'), [nm(node.target.id), node.value], [])), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(nm('_S_mod'), [node.left, node.right], [])
        return node

    def visit_Compare(self, node, test=False):
        if len(node.ops) > 1:
            simple = all(isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) for c in node.comparators[:-1])
            if simple:
                parts = []
                left = node.left
                for op, right in zip(node.ops, node.comparators):
                    parts.append(ast.copy_location(ast.Compare(left, [op], [right]), node))
                    left = right
                return self.visit(ast.copy_location(ast.BoolOp(ast.And(), parts), node))
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if isinstance(node.ops[0], ast.In):
            return ast.Call(nm('_S_in'), [node.left, node.comparators[0]], [])
        if isinstance(node.ops[0], ast.NotIn):
            return ast.Call(nm('_S_not'), [ast.Call(nm('_S_in'), [node.left, node.comparators[0]], [])], [])
        return node

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            v = self.visit_test(node.operand)
            return ast.Call(nm('_S_not'), [v], [])
        self.generic_visit(node)
        return node

    def visit_test(self, node):
        """node in truth position."""
        if isinstance(node, ast.BoolOp):
            return self._boolop(node, True)
        return self.visit(node)

    def visit_BoolOp(self, node):
        return self._boolop(node, False)

    def _boolop(self, node, test):
        site = self.site(node)
        trouble = any(has_scope_trouble(v) for v in node.values) or self.depth == 0
        pure = all(is_pure(v) for v in node.values[1:])
        vals = [self.visit_test(v) if test else self.visit(v) for v in node.values]
        if trouble or not pure:
            # keep Python's own short circuit (forks)
            return ast.copy_location(ast.BoolOp(node.op, vals), node)
        fn = '_S_and' if isinstance(node.op, ast.And) else '_S_or'
        return ast.Call(nm(fn), [site, cst(test)] + [lam(v) for v in vals], [])

    def visit_IfExp(self, node):
        site = self.site(node)
        trouble = self.depth == 0 or has_scope_trouble(node)
        pure = is_pure(node.body) and is_pure(node.orelse)
        t = self.visit_test(node.test)
        b = self.visit(node.body)
        o = self.visit(node.orelse)
        if trouble or not pure:
            return ast.copy_location(ast.IfExp(t, b, o), node)
        return ast.Call(nm('_S_ifexp'), [site, t, lam(b), lam(o)], [])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = cst('')
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                conv = None if v.conversion == -1 else chr(v.conversion)
                parts.append(ast.Tuple([self.visit(v.value), cst(conv), spec], ast.Load()))
        return ast.Call(nm('_S_fstr'), parts, [])

    def visit_While(self, node):
        node.test = self.visit_test(node.test)
        node.body = self._stmts(node.body)
        node.orelse = self._stmts(node.orelse)
        return node

    def visit_Assert(self, node):
        node.test = self.visit_test(node.test)
        if node.msg:
            node.msg = self.visit(node.msg)
        return node

    def visit_comprehension(self, node):
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.ifs = [self.visit_test(i) for i in node.ifs]
        return node

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    # -- statements
    def _assigned(self, body):
        names = []
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and is_pure(s.value):
                names.append(s.targets[0].id)
                continue
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and is_pure(s.value):
                names.append(s.target.id)
                continue
            return None
        return names

    def visit_If(self, node):
        site = self.site(node)
        a = self._assigned(node.body)
        b = self._assigned(node.orelse)
        test = self.visit_test(node.test)
        if self.depth and a is not None and b is not None and (a or b) and \
                not (set(a + b) & self.globals_[-1]):
            names = list(dict.fromkeys(a + b))
            body1, else1 = self._stmts(node.body), self._stmts(node.orelse)
            import copy
            body2, else2 = copy.deepcopy(body1), copy.deepcopy(else1)
            k = self.n
            tv = '_S_t%d' % k
            o, va, vb = '_S_o%d' % k, '_S_a%d' % k, '_S_b%d' % k

            def st(name):
                return ast.Name(name, ast.Store())

            def tup(ctx):
                return ast.Tuple([ast.Name(x, ctx()) for x in names], ctx())

            def names_call():
                return ast.Call(nm('_S_names'), [ast.Call(nm('locals'), [], [])] + [cst(x) for x in names], [])
            seq_ = [
                ast.Assign([st(o)], names_call()),
                ast.Expr(ast.Call(nm('_S_spec_enter'), [site], [])),
                ast.Try(
                    body=[*body2,
                          ast.Assign([st(va)], names_call()),
                          ast.Assign([tup(ast.Store)], nm(o)),
                          *(else2 or []),
                          ast.Assign([st(vb)], names_call())],
                    handlers=[ast.ExceptHandler(nm('BaseException'), '_S_e',
                                                [ast.Expr(ast.Call(nm('_S_spec_fail'), [site, nm('_S_e')], []))])],
                    orelse=[], finalbody=[ast.Expr(ast.Call(nm('_S_spec_exit'), [], []))]),
                ast.Assign([tup(ast.Store)], ast.Call(nm('_S_merge'), [site, nm(tv), nm(va), nm(vb)], [])),
            ]
            new = [
                ast.Assign([st(tv)], ast.Call(nm('_S_test'), [site, test], [])),
                ast.If(ast.Compare(nm(tv), [ast.Is()], [cst(True)]), body1,
                       [ast.If(ast.Compare(nm(tv), [ast.Is()], [cst(False)]), else1 or [ast.Pass()], seq_)]),
            ]
            for x in new:
                ast.copy_location(x, node)
            return new
        node.test = test
        node.body = self._stmts(node.body)
        node.orelse = self._stmts(node.orelse)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(nm('_S_EngineExc'), None, [ast.Raise(None, None)]))
        return node


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


HOOKS = {
    '_S_call': models.call, '_S_get': models.getitem, '_S_set': models.setitem, '_S_aug': models.aug,
    '_S_in': models.contains, '_S_not': models.s_not, '_S_and': models.s_and, '_S_or': models.s_or,
    '_S_ifexp': models.s_ifexp, '_S_fstr': models.fstr, '_S_mod': models.mod_op, '_S_slice': slice,
    '_S_any': models.merged_any, '_S_test': models.s_test, '_S_names': models.s_names,
    '_S_spec_enter': models.spec_enter, '_S_spec_exit': models.spec_exit, '_S_merge': models.s_merge,
    '_S_spec_fail': models.spec_fail, '_S_enter': models.enter, '_S_EngineExc': core.EngineExc,
}

_code_cache = {}


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code_cache.get(self.path)
        if code is None:
            with open(self.path, 'rb') as f:
                src = f.read()
            code = transform(src, self.path, self.name)
            _code_cache[self.path] = code
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top == 'bit':
            root = REPO
        elif top == 'props':
            root = VERIF
        else:
            return None
        p = os.path.join(root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, Loader(name, f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [p]
            spec.has_location = True
            return spec
        f = p + '.py'
        if os.path.exists(f):
            spec = importlib.machinery.ModuleSpec(name, Loader(name, f, False), origin=f)
            spec.has_location = True
            return spec
        return None


def install():
    sys.meta_path.insert(0, Finder())


def purge():
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
