"""Path exploration and obligation checking."""
import os
import sys
import time
import traceback
import warnings as _warnings
from fractions import Fraction
import numpy as np
from . import core, fn, npx
from .core import (z3, Ctx, Stats, SymReal, SymBool, SymInt, SymChoice, Unsupported, Infeasible, PathLimit, Poly, P1,
                   lift, is_sym, is_num, frac, zb, _VARS, cmp_z3)


class Found(BaseException):
    """A counterexample candidate (stops the exploration)."""


class Raised:
    """Outcome of a call that raised."""

    def __init__(self, exc):
        self.exc = exc
        self.kind = type(exc).__name__

    def __repr__(self):
        return f'Raised({self.kind}: {self.exc})'


def call(f, *a, **k):
    """Run the code under test; exceptions become values."""
    try:
        return f(*a, **k)
    except Exception as e:        # noqa: only Exception, executor control flow passes through
        if core.ctx().swallowed:
            raise Unsupported(core.ctx().swallowed)
        return Raised(e)


def val(v):
    """z3 model value -> Fraction (approximation of algebraic numbers)."""
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


def concretize(ctx, model):
    """Concrete inputs from a model."""
    out = {}
    for name, d in ctx.inputs.items():
        if d[0] == 'real':
            _, i, flag = d
            if flag is not None and z3.is_true(model.eval(flag, model_completion=True)):
                out[name] = None
                continue
            f = val(model.eval(_VARS[i], model_completion=True))
            out[name] = int(f) if f.denominator == 1 and abs(f) < 10 ** 15 else float(f)
        elif d[0] == 'bool':
            out[name] = bool(z3.is_true(model.eval(d[1], model_completion=True)))
        elif d[0] == 'int':
            out[name] = int(val(model.eval(d[1], model_completion=True)))
        else:
            k = int(val(model.eval(d[1], model_completion=True)))
            v = d[2][k]
            out[name] = v if isinstance(v, (str, int, float, bool, type(None))) else str(v)
    return out


UNREADABLE = 'the code returns results of the documented form'


class Session:
    """Explores all paths of harness(s) and discharges its obligations."""

    def __init__(self, name, replay=None, branch_timeout=1500, prove_timeout=8000, max_paths=20000,
                 deadline=None, nice=True):
        self.name = name
        self.replay = replay            # function(concrete inputs, obligation) -> (violated, detail)
        self.stats = Stats()
        self.ctx = Ctx(self.stats, branch_timeout, prove_timeout)
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = 0
        self.proved = 0
        self.labels = {}
        self.reach = {}                 # label -> count of paths reaching it
        self.violations = []
        self.spurious = []
        self.inconclusive = []
        self.unsupported = []
        self.witness = {}
        self.nice = nice
        self.sample = None

    # -- API used by harnesses -------------------------------------------------
    def reached(self, label):
        if label not in self.reach:
            self.reach[label] = 0
        self.reach[label] += 1

    def check(self, goal, label, gap=None, info=None):
        """Obligation: goal (SymBool/bool) holds on this path.

        gap: optional function(tol)-> condition describing a clear violation,
        used only to pick a counterexample that survives floating point.
        """
        c = self.ctx
        self.obligations += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        self.reached(label)
        g = zb(goal)
        r = self._valid(g)
        if r is True:
            self.proved += 1
            self.stats.proved += 1
            return True
        return self._refute(g, label, gap, info, r)

    def _valid(self, g):
        c = self.ctx
        if z3.is_true(z3.simplify(g)):
            c.stats.folded += 1     # constant on this path: no query needed
            return True
        c.solver.push()
        c.solver.add(z3.Not(g))
        c.solver.set('timeout', c.prove_timeout)
        r = c.check()
        c.solver.set('timeout', c.branch_timeout)
        c.solver.pop()
        if r == z3.unknown:
            r, _ = c.one_shot(c.pc + [z3.Not(g)], c.prove_timeout)
        return True if r == z3.unsat else (False if r == z3.sat else None)

    def _niceness(self):
        """Optional constraints that make counterexamples replay well."""
        reals = [_VARS[d[1]] for d in self.ctx.inputs.values() if d[0] == 'real']
        box = lambda b: [z3.And(v >= -b, v <= b) for v in reals]
        grid = [z3.Or(*[v == k for k in range(-3, 13)]) for v in reals] if len(reals) <= 24 else None
        out = []
        if grid is not None:
            out.append(grid)
        out.append(box(1000))
        out.append(box(10 ** 6))
        out.append([])
        return out

    def _nearby(self, m, goal, extra):
        """Further models of the negated goal, each input some distance away from the given one."""
        c = self.ctx
        for d in (Fraction(1, 10 ** 4), Fraction(1, 100)):
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*c.pc)
            s.add(goal)
            for inp in c.inputs.values():
                if inp[0] != 'real':
                    continue
                v = _VARS[inp[1]]
                x = m.eval(v)
                if not z3.is_rational_value(x):
                    continue
                f = x.as_fraction()
                e = d * max(abs(f), Fraction(1, 10))
                s.add(z3.Or(v <= z3.Q((f - e).numerator, (f - e).denominator), v >= z3.Q((f + e).numerator, (f + e).denominator)))
            t = time.time()
            r = s.check()
            c.stats.queries += 1
            c.stats.solver_s += time.time() - t
            if r == z3.sat:
                c.stats.sat += 1
                yield concretize(c, s.model())
            elif r == z3.unknown:
                c.stats.unknown += 1
            else:
                c.stats.unsat += 1

    def _refute(self, g, label, gap, info, r0):
        c = self.ctx
        tried = []
        goals = []
        if gap is not None:
            for tol in (Fraction(1, 100), Fraction(1, 10 ** 4), Fraction(1, 10 ** 6)):
                goals.append(zb(gap(tol)))
        goals.append(z3.Not(g))
        got_sat = r0 is False
        for goal in goals:
            for extra in (self._niceness() if self.nice else [[]]):
                s = z3.Solver()
                s.set('timeout', 3000)
                s.add(*c.pc)
                s.add(goal)
                s.add(*extra)
                t = time.time()
                r = s.check()
                c.stats.queries += 1
                c.stats.solver_s += time.time() - t
                if r != z3.sat:
                    if r == z3.unknown:
                        c.stats.unknown += 1
                        r, m = c.one_shot(c.pc + [goal] + extra, 3000)
                        if r != z3.sat:
                            continue
                    else:
                        c.stats.unsat += 1
                        continue
                else:
                    c.stats.sat += 1
                    m = s.model()
                got_sat = True
                case = concretize(c, m)
                if case in tried:
                    continue
                tried.append(case)
                if self.replay is None:
                    self.violations.append({'label': label, 'case': case, 'info': info, 'detail': 'no replay'})
                    raise Found()
                ok, detail = self.replay(case, label)
                if not ok:
                    # perhaps a model on the edge, where machine arithmetic falls to the other side: try its surroundings
                    for case in self._nearby(m, goal, extra):
                        tried.append(case)
                        ok, detail = self.replay(case, label)
                        if ok:
                            break
                if ok:
                    self.violations.append({'label': label, 'case': case, 'info': info, 'detail': detail})
                    raise Found()
                if len(tried) >= 12:
                    break
            if len(tried) >= 12:
                break
        if got_sat:
            self.spurious.append({'label': label, 'cases': tried[:2]})
        else:
            self.inconclusive.append({'label': label, 'why': 'solver returned unknown'})
        return False

    # -- exploration ---------------------------------------------------------------
    def explore(self, harness):
        c = self.ctx
        stack = [[]]
        npaths = 0
        complete = True
        while stack:
            if npaths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                complete = False
                self.inconclusive.append({'label': '*', 'why': f'path budget reached with {len(stack)} open'})
                break
            c.prefix = stack.pop()
            c.reset()
            Ctx.cur = c
            npaths += 1
            filters = list(_warnings.filters)
            try:
                _warnings.simplefilter('ignore')
                harness(self)
                if c.swallowed:
                    raise Unsupported(c.swallowed)
            except Infeasible:
                pass
            except Found:
                self.paths = npaths
                Ctx.cur = None
                _warnings.filters[:] = filters
                return False
            except (Unsupported, PathLimit) as e:
                self.unsupported.append(str(e)[:300])
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
            except z3.Z3Exception as e:
                self.inconclusive.append({'label': '*', 'why': f'z3: {e}'})
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
            except Exception as e:      # noqa: the harness cannot read what the code returned
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
                try:
                    self.check(False, UNREADABLE, info=repr(e)[:200])
                except Found:
                    self.paths = npaths
                    Ctx.cur = None
                    _warnings.filters[:] = filters
                    return False
                except (Unsupported, PathLimit):
                    pass
                raise
            finally:
                Ctx.cur = None
                _warnings.filters[:] = filters
            # open alternatives of this run
            tr = c.trace
            for k in range(len(tr) - 1, len(c.prefix) - 1, -1):
                if tr[k][1]:
                    stack.append([list(x) for x in tr[:k]] + [[not tr[k][0], False]])
        self.paths = npaths
        self.stats.paths += npaths
        self.complete = complete
        return not self.violations

    def result(self):
        return {'name': self.name, 'paths': self.paths, 'obligations': self.obligations, 'proved': self.proved,
                'complete': getattr(self, 'complete', False), 'reach': self.reach, 'violations': self.violations,
                'spurious': self.spurious[:5], 'n_spurious': len(self.spurious),
                'inconclusive': self.inconclusive[:5], 'n_inconclusive': len(self.inconclusive),
                'unsupported': self.unsupported[:5], 'n_unsupported': len(self.unsupported),
                'stats': self.stats.as_dict()}


# -- comparing outcomes ------------------------------------------------------------
def eq_goal(a, b):
    """Formula: outcomes a and b are the same (None, numbers, NaN)."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised)
    if isinstance(a, (str, SymChoice)) or isinstance(b, (str, SymChoice)):
        return a == b
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (float, np.floating)) and a != a:
            return isinstance(b, (float, np.floating)) and b != b
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            return bool(abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)))) or a == b
        return a == b
    for x in (a, b):
        if core._isinf(x):
            return False
    if core._isnan(a):
        return SymBool(lift(b).nanz())
    if core._isnan(b):
        return SymBool(lift(a).nanz())
    x, y = lift(a), lift(b)
    if x.nan is None and y.nan is None and all(p.is_const() for p in (x.num, x.den, y.num, y.den)) and x.den.cval() and y.den.cval():
        # constants may have been rounded by machine arithmetic on either side
        u, v = x.num.cval() / x.den.cval(), y.num.cval() / y.den.cval()
        return abs(float(u - v)) <= 1e-9 * max(1.0, abs(float(u)))
    z = exact_eq(x, y)
    if x.nan is None and y.nan is None:
        return SymBool(z)
    return SymBool(z3.Or(z3.And(x.nanz(), y.nanz()), z3.And(x.notnan(), y.notnan(), z)))


def exact_eq(x, y):
    c = core.ctx()
    d = x.num * y.den - y.num * x.den
    if d.is_zero():
        # hand the solver the unnormalised identity
        return x.num.z3() * y.den.z3() == y.num.z3() * x.den.z3()
    if c.lets:
        e = c.expand(d)
        if e.is_zero():
            return e.z3() == 0
    if same_up_to_rounding(x.num * y.den, y.num * x.den):
        return z3.BoolVal(True)
    return d.z3() == 0


def same_up_to_rounding(p, q):
    """Coefficients that differ only as far as machine arithmetic on constants rounds them."""
    return p.t.keys() == q.t.keys() and all(abs(c - q.t[m]) * 10 ** 13 <= abs(c) for m, c in p.t.items())


def gap_goal(a, b):
    """tol -> formula: the outcomes clearly differ."""
    def f(tol):
        if not is_sym(a) and not is_sym(b):
            return z3.Not(zb(eq_goal(a, b)))
        if a is None or b is None or isinstance(a, Raised) or isinstance(b, Raised):
            return z3.BoolVal(True)
        if core._isinf(a) or core._isinf(b) or core._isnan(a) or core._isnan(b):
            return z3.Not(zb(eq_goal(a, b)))
        if isinstance(a, (str, SymChoice)) or isinstance(b, (str, SymChoice)):
            return z3.Not(zb(a == b))
        x, y = lift(a).strip(), lift(b).strip()
        d = x - y
        z = z3.Or(cmp_z3(d, lift(tol), '>'), cmp_z3(d, lift(-tol), '<'))
        xn, yn = lift(a), lift(b)
        if xn.nan is None and yn.nan is None:
            return z
        return z3.Or(z3.Xor(xn.nanz(), yn.nanz()), z3.And(xn.notnan(), yn.notnan(), z))
    return f
