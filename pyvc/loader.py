"""Mechanical instrumentation of the code under verification.

Every module of the package is read from its current source; the syntax tree is
rewritten only so: calls f(...) become __pv_call__(f, ...); f-strings, the %
operator, `in`, `is` and subscript reads go through helpers.  On ordinary values
the helpers do exactly what Python does.  Nothing is dropped except annotations
(left as they are) and `super()`, `locals()`, `vars()`, `eval`, `exec` calls,
which are left untouched.
"""
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys
import warnings

from . import builtins_ as B
from . import core

SKIP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


MUTATORS = {"append", "add", "pop", "remove", "clear", "extend", "insert", "sort", "reverse", "update",
            "setdefault", "popitem", "discard", "appendleft", "popleft", "__init__", "__setattr__", "__setitem__"}


def stores(nodes):
    """Whether the nodes store to attributes or items."""
    for node in nodes:
        for x in ast.walk(node):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
    return False


def mergeable(n):
    """Functions that look free of side effects (checked again while running)."""
    if n.name in ("__init__", "__new__", "__init_subclass__", "__iter__", "__next__", "__enter__", "__exit__"):
        return False
    if isinstance(n, ast.AsyncFunctionDef) or stores(n.body):
        return False
    for d in n.decorator_list:
        if not (isinstance(d, ast.Name) and d.id in ("property", "staticmethod")):
            return False
    fork = False
    for s in n.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.FunctionDef,
                              ast.Lambda, ast.ClassDef, ast.Try)):
                return False
            if isinstance(x, ast.Call):
                fork = True
                if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    return False
            elif isinstance(x, (ast.If, ast.IfExp, ast.For, ast.While, ast.BoolOp, ast.JoinedStr, ast.Subscript,
                                ast.Attribute)):
                fork = True
    return fork


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def h(self, name, node, args, keywords=()):
        self.n += 1
        return ast.copy_location(
            ast.Call(ast.copy_location(ast.Name(name, ast.Load()), node), list(args), list(keywords)), node)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
            if not isinstance(n.target, ast.Name):
                return self._write(n)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [d and self.visit(d) for d in n.kw_defaults]
        return n

    def visit_FunctionDef(self, n):
        n.args = self.visit(n.args)
        pure = mergeable(n)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r] if r is not None else []
        n.body = body
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        if pure:
            n.decorator_list.append(ast.copy_location(ast.Name("__pv_merge__", ast.Load()), n))
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def _write(self, n):
        """Stores to attributes and items are announced to the engine."""
        w = ast.copy_location(ast.Expr(ast.copy_location(
            ast.Call(ast.copy_location(ast.Name("__pv_write__", ast.Load()), n), [], []), n)), n)
        return [w, n]

    def visit_Assign(self, n):
        st = stores([n])
        self.generic_visit(n)
        return self._write(n) if st else n

    def visit_AugAssign(self, n):
        st = stores([n])
        self.generic_visit(n)
        return self._write(n) if st else n

    def visit_Delete(self, n):
        self.generic_visit(n)
        return self._write(n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in SKIP:
            return n
        return self.h("__pv_call__", n, [n.func] + n.args, n.keywords)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.copy_location(ast.Constant(""), n) if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.copy_location(ast.Tuple(
                    [self.visit(v.value), ast.copy_location(ast.Constant(v.conversion), n), spec], ast.Load()), n))
        return self.h("__pv_fstr__", n, parts)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.h("__pv_mod__", n, [n.left, n.right])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            name = {ast.Is: "__pv_is__", ast.IsNot: "__pv_isnot__", ast.In: "__pv_in__",
                    ast.NotIn: "__pv_notin__"}.get(type(n.ops[0]))
            if name:
                return self.h(name, n, [n.left, n.comparators[0]])
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return self.h("__pv_not__", n, [n.operand])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                none = lambda: ast.copy_location(ast.Constant(None), n)
                sl = ast.copy_location(ast.Call(ast.copy_location(ast.Name("__pv_slice__", ast.Load()), n),
                                                [sl.lower or none(), sl.upper or none(), sl.step or none()], []), n)
            return self.h("__pv_getitem__", n, [n.value, sl])
        return n


def _mod(a, b):
    if isinstance(a, (str, B.SymStr)):
        return B.percent(a, b)
    return a % b


HELPERS = {
    "__pv_call__": B.call, "__pv_fstr__": B.fstr, "__pv_mod__": _mod, "__pv_is__": B.is_,
    "__pv_isnot__": B.is_not, "__pv_in__": B.contains, "__pv_notin__": B.not_contains,
    "__pv_merge__": core.merge, "__pv_write__": core.write, "__pv_getitem__": B.getitem, "__pv_not__": B.not_, "__pv_slice__": slice,
}

INFO = {"files": 0, "sites": 0, "sha": {}, "functions": []}


class Loader(importlib.abc.SourceLoader):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def exec_module(self, module):
        src = self.get_data(self.path)
        INFO["files"] += 1
        INFO["sha"][self.path] = hashlib.sha256(src).hexdigest()
        tree = ast.parse(src, self.path)
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                INFO["functions"].append((self.path, node.name, node.lineno))
        t = T()
        tree = t.visit(tree)
        INFO["sites"] += t.n
        ast.fix_missing_locations(tree)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__.update(HELPERS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root = root
        self.package = package

    def find_spec(self, name, path, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f),
                                                          submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install(root="/repo", package="aeromet_py"):
    sys.dont_write_bytecode = True
    for m in [m for m in sys.modules if m == package or m.startswith(package + ".")]:
        del sys.modules[m]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    sys.meta_path.insert(0, Finder(root, package))
    INFO.update(files=0, sites=0, sha={}, functions=[])
    return importlib.import_module(package)
