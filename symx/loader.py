"""Loads the modules of /repo for symbolic execution.

The source text is read from /repo at run time and compiled unchanged except
that direct calls of a few builtins (float, int, sum, isinstance, ...) go
through symbolic-aware versions, and imports of numpy, math, warnings,
statistics and scipy yield the stand-ins of npx.py.
"""
import ast
import builtins
import hashlib
import importlib
import importlib.abc
import importlib.util
import numbers
import os
import sys
import types
from fractions import Fraction
import numpy as _np
from . import core, fn, npx
from .core import SymReal, SymInt, SymBool, SymChoice, SYM, is_sym, unsupported, lift, Ctx

REPO = os.environ.get('SYMX_REPO', '/repo')
ENCODED = {}          # file -> sha256 of the source that was encoded


# -- builtins ---------------------------------------------------------------
def sx_float(*a):
    if a and is_sym(a[0]):
        x = fn._norm(a[0])
        if isinstance(x, SymReal):
            return SymReal(x.num, x.den, x.nan, False)
        return float(x)
    if a and isinstance(a[0], _np.ndarray) and npx.has_sym(a[0]) and a[0].size == 1:
        return sx_float(list(a[0].flat)[0])
    if a and isinstance(a[0], Fraction):
        return lift(a[0], False)
    return float(*a)


def sx_float64(real, *a):
    if a and (is_sym(a[0]) or isinstance(a[0], Fraction)):
        return npx.conv_float(a[0])
    if a and npx.has_sym(a[0]):
        return npx.asobj(a[0]).astype(float)
    return real(*a)


def sx_int(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SymInt):
            return x
        x = fn._norm(x)
        if isinstance(x, SymReal):
            if x.nan is not None and core.ctx().branch(x.nan):
                raise ValueError('cannot convert float NaN to integer')
            return fn.trunc(x)
        return int(x)
    return int(*a)


def sx_sum(it, *a):
    xs = list(it)
    return npx.m_sum(xs, *a)


def _types_of(t):
    if isinstance(t, tuple):
        return [u for s in t for u in _types_of(s)]
    if isinstance(t, types.UnionType):
        return list(t.__args__)
    return [t]


def sx_isinstance(x, t):
    if isinstance(x, SYM):
        ts = _types_of(t)
        if any(isinstance(x, u) for u in ts if isinstance(u, type)):
            return True
        if isinstance(x, SymReal):
            c = (float, numbers.Number, numbers.Real)
            if x.np:
                c += (_np.float64, _np.floating, _np.generic, _np.number, _np.inexact)
            return any(u in c for u in ts)
        if isinstance(x, SymInt):
            return any(u in (int, numbers.Number, numbers.Real, numbers.Integral) for u in ts)
        if isinstance(x, SymBool):
            return any(u in (bool, int) for u in ts)
        if isinstance(x, SymChoice):
            return isinstance(x.values[0], t)
    return isinstance(x, t)


def sx_type(x, *a):
    if not a and isinstance(x, SYM):
        if isinstance(x, SymReal):
            return _np.float64 if x.np else float
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymBool):
            return bool
        return type(x.values[0])
    return type(x, *a)


def sx_round(x, *a):
    if is_sym(x):
        return fn.round_even(x, *a)
    return round(x, *a)


def sx_range(*a):
    return range(*[int(x) if is_sym(x) else x for x in a])


_CALLS = {'float': sx_float, 'int': sx_int, 'sum': sx_sum, 'isinstance': sx_isinstance, 'type': sx_type,
          'round': sx_round, 'range': sx_range}


def _bound(body):
    """Names bound by these statements (nested function bodies excluded)."""
    out, todo = set(), list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
        todo += list(ast.iter_child_nodes(n))
    return out


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.shadow = [set()]           # builtins redefined by the source keep their meaning there

    def visit_Module(self, node):
        self.shadow.append(_bound(node.body))
        return self.generic_visit(node)

    def visit_FunctionDef(self, node):
        a = node.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.shadow.append(self.shadow[-1] | names | _bound(node.body))
        self.generic_visit(node)
        self.shadow.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in self.shadow[-1]:
            return node
        if isinstance(f, ast.Name) and f.id in _CALLS:
            node.func = ast.copy_location(ast.Name(id=f'__symx_{f.id}__', ctx=ast.Load()), f)
        elif isinstance(f, ast.Name) and f.id in ('map', 'filter') and node.args \
                and isinstance(node.args[0], ast.Name) and node.args[0].id in _CALLS:
            node.args[0] = ast.copy_location(ast.Name(id=f'__symx_{node.args[0].id}__', ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in ('float64', 'float32', 'double') and len(node.args) == 1:
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id='__symx_float64__', ctx=ast.Load()), f)
        return node


# -- imports ------------------------------------------------------------------
class Stub(types.ModuleType):
    """A third-party module that is not installed here."""
    __path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        m = Stub(f'{self.__name__}.{n}')
        setattr(self, n, m)
        return m

    def __call__(self, *a, **k):
        unsupported(f'call into missing module {self.__name__}')


STUBBED = set()


class ObjProxy:
    """Object of a proxied library (e.g. scipy.stats.t)."""

    def __init__(self, real, name):
        self._real, self._name = real, name

    def __getattr__(self, n):
        v = getattr(self._real, n)
        if not callable(v):
            return v
        nm = f'{self._name}.{n}'

        def f(*a, **k):
            if npx.has_sym(a) or npx.has_sym(k):
                o = npx.OVERRIDES.get(nm)
                if o is None:
                    unsupported(f'{nm} on symbolic data')
                return o(*a, **k)
            return v(*a, **k)
        return f

    def __call__(self, *a, **k):
        if npx.has_sym(a) or npx.has_sym(k):
            o = npx.OVERRIDES.get(self._name)
            if o is None:
                unsupported(f'{self._name} on symbolic data')
            return o(*a, **k)
        return self._real(*a, **k)


class LibProxy(npx.Proxy):
    def __init__(self, real, name):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__path__ = []

    def __getattr__(self, n):
        full = f'{self.__name__}.{n}'
        try:
            v = getattr(self.__dict__['_real'], n)
        except AttributeError:
            try:
                v = importlib.import_module(full)
            except ImportError:
                raise AttributeError(n)
        if isinstance(v, types.ModuleType):
            return _libproxy(full)
        if callable(v) and not isinstance(v, type) or hasattr(v, 'cdf'):
            return ObjProxy(v, full)
        return v


_LIB = {}


def _libproxy(name):
    if name not in _LIB:
        _LIB[name] = LibProxy(importlib.import_module(name), name)
    return _LIB[name]


PROXIED = {'numpy': npx.NP, 'math': npx.MATH, 'warnings': npx.WARN, 'statistics': npx.STATS}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if name in PROXIED:
            return PROXIED[name]
        if top == 'numpy':
            if fromlist:
                m = npx.NP
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
                return m
            return npx.NP
        if top == 'scipy':
            importlib.import_module(name)
            return _libproxy(name) if fromlist else _libproxy('scipy')
    try:
        return builtins.__import__(name, globals, locals, fromlist, level)
    except ImportError:
        top = name.split('.')[0]
        if top == 'metcalcpy':
            raise
        # sibling scripts in contributed/ are imported by bare name
        STUBBED.add(name)
        parts = name.split('.')
        root = Stub(parts[0])
        m = root
        for p in parts[1:]:
            m = getattr(m, p)
        return m if fromlist else root


def make_builtins():
    b = dict(builtins.__dict__)
    b['__import__'] = sx_import
    for k, v in _CALLS.items():
        b[f'__symx_{k}__'] = v
    b['__symx_float64__'] = sx_float64
    b['print'] = lambda *a, **k: None
    return b


def compile_source(path):
    src = open(path, 'rb').read()
    ENCODED[os.path.relpath(path, REPO)] = hashlib.sha256(src).hexdigest()
    tree = Rewrite().visit(ast.parse(src, path))
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class RepoLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = compile_source(self.path)
        module.__dict__['__builtins__'] = make_builtins()
        module.__file__ = self.path
        exec(code, module.__dict__)

    def get_source(self, name):
        return open(self.path).read()


class RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'metcalcpy' and not fullname.startswith('metcalcpy.'):
            return None
        rel = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(rel):
            init = os.path.join(rel, '__init__.py')
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(
                    fullname, init, loader=RepoLoader(init), submodule_search_locations=[rel])
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(fullname, rel + '.py', loader=RepoLoader(rel + '.py'))
        return None


_INSTALLED = False


def install():
    global _INSTALLED
    if not _INSTALLED:
        sys.meta_path.insert(0, RepoFinder())
        _INSTALLED = True
        from . import pdx
        pdx.install()


def load(name):
    """Import a /repo module for symbolic execution."""
    install()
    return importlib.import_module(name)


def load_file(path, name=None):
    """Load a stand-alone script of /repo (not importable as a package)."""
    install()
    name = name or 'symx_' + os.path.basename(path)[:-3]
    m = types.ModuleType(name)
    m.__dict__['__builtins__'] = make_builtins()
    m.__file__ = path
    code = compile_source(path)
    sys.modules[name] = m
    exec(code, m.__dict__)
    return m
