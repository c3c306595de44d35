"""One harness, two interpreters.

A harness is a function h(s).  With a SymSession `s` its inputs are symbolic
and the module under test is the symbolically loaded source; with a
ConcSession the inputs come from a solver model and the module is the real,
unpatched one.  The latter is how counterexamples and path witnesses are
replayed.
"""
import importlib
import os
import math
import sys
from fractions import Fraction
import numpy as np
import pandas as pd
from . import core, fn, npx
from .core import SymReal, SymBool, SymInt, SymChoice, is_sym, is_num, zb, z3, lift, P1
from . import explore as X
from .explore import Session, Raised

REPO = os.environ.get('SYMX_REPO', '/repo')
ABS_TOL, REL_TOL = 1.5e-7, 1e-9


class SymSession(Session):
    symbolic = True

    def module(self, name):
        from . import loader
        return loader.load(name)

    def script(self, rel):
        from . import loader
        key = 'symx_script_' + rel.replace('/', '_')[:-3]
        if key in sys.modules:
            return sys.modules[key]
        return loader.load_file(f'{REPO}/{rel}', key)

    def real(self, name, **k):
        return self.ctx.real(name, **k)

    def integer(self, name, lo, hi):
        return self.ctx.integer(name, lo, hi)

    def boolean(self, name):
        return self.ctx.boolean(name)

    def choice(self, name, values):
        return self.ctx.choice(name, values)

    def assume(self, cond):
        self.ctx.assume(cond)

    def call(self, f, *a, **k):
        return X.call(f, *a, **k)

    def table(self, rows):
        return npx.asobj([list(r) for r in rows]) if rows else np.empty((0, 0))

    def vector(self, xs):
        return npx.asobj(list(xs))

    def frame(self, cols):
        """DataFrame; columns holding symbolic values are object columns."""
        d = {}
        for k, v in cols.items():
            v = list(v)
            d[k] = pd.Series(npx.asobj(v).view(np.ndarray), dtype=object) if npx.has_sym(v) else v
        return pd.DataFrame(d)

    def r7(self, x, digits=7):
        """round half up, as a formula"""
        if x is None:
            return None
        m = 10 ** digits
        return fn.py_floor(lift(x, False) * m + Fraction(1, 2)) / m

    def warn_state(self):
        return self.ctx.warn

    def set_warn(self, action):
        import warnings
        self.ctx.warn = action
        warnings.simplefilter(action)

    def same(self, a, b):
        if isinstance(b, Alt):
            return core.sym_or([self.same(a, x) for x in b.items])
        return X.eq_goal(norm(a), norm(b))

    def check_same(self, out, exp, label, info=None):
        out = norm(out)
        if isinstance(exp, Alt):
            # any accepted reading of the definition will do
            got = []
            for e in exp.items:
                e = norm(e() if callable(e) else e)
                got.append(e)
                g = X.eq_goal(out, e)
                if self._valid(zb(g)) is True:
                    self.obligations += 1
                    self.proved += 1
                    self.stats.proved += 1
                    self.labels[label] = self.labels.get(label, 0) + 1
                    self.reached(label)
                    return True
            goal = core.sym_or([X.eq_goal(out, e) for e in got])
            gap = lambda tol: z3.And(*[zb(X.gap_goal(out, e)(tol)) for e in got])
            return self.check(goal, label, gap=gap, info=info)
        exp = norm(exp)
        return self.check(X.eq_goal(out, exp), label, gap=X.gap_goal(out, exp), info=info)

    def close(self, a, b, tol):
        """|a - b| <= tol as a goal (both numbers)."""
        return (a - b <= tol) & (b - a <= tol)


class Alt:
    """Several acceptable expected outcomes."""

    def __init__(self, *items):
        self.items = items


def norm(x):
    """Singleton arrays / numpy scalars to plain scalars."""
    if isinstance(x, np.ndarray) and x.shape == ():
        return x.item()
    if isinstance(x, SymInt):
        return x.real()
    return x


class ConcSession:
    """Replays one concrete case on the real code."""
    symbolic = False

    def __init__(self, case):
        self.case = case
        self.failures = []
        self.calls = 0
        self.checks = 0
        self.reach = {}

    def module(self, name):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        return importlib.import_module(name)

    def script(self, rel):
        import importlib.util as iu
        import os
        key = 'conc_script_' + rel.replace('/', '_')[:-3]
        if key in sys.modules:
            return sys.modules[key]
        spec = iu.spec_from_file_location(key, f'{REPO}/{rel}')
        m = iu.module_from_spec(spec)
        sys.modules[key] = m
        sys.path.insert(0, os.path.dirname(f'{REPO}/{rel}'))
        from . import stubs
        with stubs.missing_modules():
            spec.loader.exec_module(m)
        return m

    def real(self, name, nan=False, np=True, lo=None, hi=None, integer=False):
        v = self.case.get(name, 0)
        import numpy
        if v is None:
            return numpy.float64('nan')
        return numpy.float64(v) if np else float(v)

    def integer(self, name, lo, hi):
        return int(self.case.get(name, lo))

    def boolean(self, name):
        return bool(self.case.get(name, False))

    def choice(self, name, values):
        v = self.case.get(name, values[0])
        for x in values:
            if x == v or str(x) == v:
                return x
        return values[0]

    def assume(self, cond):
        if not bool(cond):
            raise core.Infeasible()

    def call(self, f, *a, **k):
        self.calls += 1
        try:
            return f(*a, **k)
        except Exception as e:
            return Raised(e)

    def table(self, rows):
        return np.array([list(r) for r in rows])

    def vector(self, xs):
        return np.array(list(xs))

    def frame(self, cols):
        return pd.DataFrame({k: list(v) for k, v in cols.items()})

    def r7(self, x, digits=7):
        if x is None:
            return None
        m = 10 ** digits
        return math.floor(x * m + 0.5) / m

    def warn_state(self):
        import warnings
        for f in warnings.filters:
            if f[1] is None and issubclass(RuntimeWarning, f[2]) and f[3] is None:
                return f[0]
        return 'default'

    def set_warn(self, action):
        import warnings
        warnings.simplefilter(action)

    def reached(self, label):
        self.reach[label] = self.reach.get(label, 0) + 1

    def same(self, a, b):
        if isinstance(b, Alt):
            return any(self.same(a, x() if callable(x) else x) for x in b.items)
        return conc_same(a, b)

    def check(self, goal, label, gap=None, info=None):
        self.checks += 1
        self.reached(label)
        ok = bool(goal)
        if not ok:
            self.failures.append({'label': label, 'detail': f'{info}' if info is not None else ''})
        return ok

    def check_same(self, out, exp, label, info=None):
        ok = self.same(out, exp)
        e = [repr(x() if callable(x) else x) for x in exp.items] if isinstance(exp, Alt) else repr(exp)
        self.checks += 1
        self.reached(label)
        if not ok:
            self.failures.append({'label': label, 'detail': f'observed {out!r}, expected {e}', 'info': info,
                                  'noise': noise(out, exp)})
        return ok

    def close(self, a, b, tol):
        return abs(a - b) <= tol + 1e-6 * max(1.0, abs(a), abs(b))


def noise(a, b):
    if isinstance(b, Alt):
        return any(noise(a, x() if callable(x) else x) for x in b.items)
    try:
        x, y = float(norm(a)), float(norm(b))
    except (TypeError, ValueError):
        return False
    return abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y))


def conc_same(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if x != x or y != y:
        return x != x and y != y
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= ABS_TOL + REL_TOL * max(abs(x), abs(y))
