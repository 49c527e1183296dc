"""Import hook: loads DRecPy from /repo's current source (never from .pyc).

The only rewriting done (symbolic mode only) is of direct calls to float(), int(), str(),
round(), type(), eval(), abs(), bool(), which go through symbolic-aware equivalents, because
CPython's own versions would force a native number.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

from . import core, fns

REPO = os.environ.get('SYMX_REPO', '/repo')
REWRITE = {'float', 'int', 'str', 'round', 'type', 'eval', 'repr'}


class _Rw(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in REWRITE:
            if node.func.id == 'type' and len(node.args) != 1:
                return node
            if node.func.id == 'eval' and len(node.args) == 1:
                # eval needs the caller's names
                node.args = [node.args[0],
                             ast.Call(ast.Name('globals', ast.Load()), [], []),
                             ast.Call(ast.Name('locals', ast.Load()), [], [])]
            node.func = ast.Name('__sx_' + node.func.id + '__', ast.Load())
        elif isinstance(node.func, ast.Name) and node.func.id in ('map', 'filter') and node.args \
                and isinstance(node.args[0], ast.Name) and node.args[0].id in REWRITE - {'eval', 'type'}:
            node.args[0] = ast.Name('__sx_' + node.args[0].id + '__', ast.Load())
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        if node.arg == 'key' and isinstance(node.value, ast.Name) and node.value.id in REWRITE - {'eval', 'type'}:
            node.value = ast.Name('__sx_' + node.value.id + '__', ast.Load())
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, path, symbolic):
        self.path, self.symbolic = path, symbolic

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if self.symbolic:
            tree = _Rw().visit(tree)
            ast.fix_missing_locations(tree)
            for k, v in fns.CALLS.items():
                module.__dict__['__sx_' + k + '__'] = v
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = _module_builtins(self.symbolic)
        exec(code, module.__dict__)


_SHIMS = {}


def _module_builtins(symbolic):
    d = dict(vars(builtins))
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            top = name.split('.')[0]
            if not fromlist and top in _SHIMS:
                if name not in _SHIMS:
                    real_import(name, globals, locals, fromlist, level)
                return _SHIMS[top]
            if name in _SHIMS:
                return _SHIMS[name]
        return real_import(name, globals, locals, fromlist, level)
    d['__import__'] = imp
    d['print'] = lambda *a, **k: None
    if symbolic:
        d['sum'] = fns.sx_sum
        d['min'] = fns.sx_min
        d['max'] = fns.sx_max
        d['abs'] = fns.sx_abs
    return d


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic):
        self.symbolic = symbolic

    def find_spec(self, name, path=None, target=None):
        if name != 'DRecPy' and not name.startswith('DRecPy.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, self.symbolic), submodule_search_locations=[base])
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, self.symbolic))
        return None


def install(symbolic, shims):
    _SHIMS.clear()
    _SHIMS.update(shims)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(symbolic))
