"""Symbolic execution core.

Values flowing through the real code of /repo are Python objects (SymReal,
SymBool, SymInt, SymStr) whose operators build SMT terms.  Whenever the code
asks for the truth of a symbolic condition the executor forks: it asks z3
which outcomes are feasible under the path condition, takes one and remembers
the other, and later re-executes the real function down the other branch.
"""
import os
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as _np  # noqa: E402

z3.set_param('smt.random_seed', int(os.environ.get('VERIF_SEED', '1') or 1))


class Unsupported(BaseException):
    """The code under test did something the symbolic executor cannot encode."""


class Infeasible(BaseException):
    """The current path cannot happen (used by assume)."""


class PathLimit(BaseException):
    pass


# --------------------------------------------------------------------------
# polynomials over z3 real constants
# --------------------------------------------------------------------------
_VARS = []          # id -> z3 const
_VARID = {}         # name -> id
_MONO = {}          # monomial -> z3 term


def real_const(name):
    i = _VARID.get(name)
    if i is None:
        i = len(_VARS)
        _VARID[name] = i
        _VARS.append(z3.Real(name))
    return i


def _mono_z3(m):
    t = _MONO.get(m)
    if t is None:
        f = []
        for v, e in m:
            f.extend([_VARS[v]] * e)
        t = f[0]
        for g in f[1:]:
            t = t * g
        _MONO[m] = t
    return t


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) == 1 and len(b) == 1:
        (va, ea), (vb, eb) = a[0], b[0]
        if va == vb:
            return ((va, ea + eb),)
        return (a[0], b[0]) if va < vb else (b[0], a[0])
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def _mono_gcd(ms):
    """Largest monomial dividing all of ms."""
    g = None
    for m in ms:
        if not m:
            return ()
        if g is None:
            g = dict(m)
            continue
        d = dict(m)
        g = {v: min(e, d[v]) for v, e in g.items() if v in d}
        if not g:
            return ()
    return tuple(sorted(g.items())) if g else ()


def _mono_div(m, g):
    d = dict(m)
    for v, e in g:
        d[v] -= e
    return tuple((v, e) for v, e in sorted(d.items()) if e)


def cancel(num, den):
    """Cancels common monomial factors; the denominator is known not to vanish."""
    if den.is_const() or not num.t:
        return num, den
    g = _mono_gcd(den.t)
    if g:
        g = _mono_gcd([g] + list(num.t))
    if g:
        num, den = Poly({_mono_div(m, g): c for m, c in num.t.items()}), Poly({_mono_div(m, g): c for m, c in den.t.items()})
    return _cancel_univariate(num, den)


def _dense(p):
    """Variable and coefficients (constant first) of a polynomial in one variable, else None."""
    v, d = None, {}
    for m, c in p.t.items():
        if len(m) > 1 or m and v is not None and m[0][0] != v:
            return None
        if m:
            v = m[0][0]
        d[m[0][1] if m else 0] = c
    return v, [d.get(i, Fraction(0)) for i in range(max(d) + 1)]


def _divmod(a, b):
    a, q = list(a), [Fraction(0)] * max(len(a) - len(b) + 1, 1)
    while len(a) >= len(b) and a:
        k = a[-1] / b[-1]
        s = len(a) - len(b)
        q[s] = k
        for i, c in enumerate(b):
            a[s + i] -= k * c
        a.pop()
        while a and not a[-1]:
            a.pop()
    return q, a


def _cancel_univariate(num, den):
    """Cancels the greatest common divisor of two polynomials in the same variable."""
    if len(den.t) < 2 or len(num.t) < 2 or num.degree() > 12 or den.degree() > 12:
        return num, den
    a, b = _dense(num), _dense(den)
    if a is None or b is None or a[0] != b[0]:
        return num, den
    v, x, y = a[0], a[1], b[1]
    while y:
        x, y = y, _divmod(x, y)[1]
    if len(x) < 2:
        return num, den
    mk = lambda cs: Poly({(((v, i),) if i else ()): c for i, c in enumerate(cs) if c})
    lead = _divmod(b[1], x)[0]
    k = 1 / max((c for c in lead if c), key=abs)
    return mk([c * k for c in _divmod(a[1], x)[0]]), mk([c * k for c in lead])


class Poly:
    __slots__ = ('t', '_z', '_k')

    def __init__(self, t):
        self.t = t
        self._z = None
        self._k = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(i):
        return Poly({((i, 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        if len(self.t) * len(o.t) > 400000:
            raise Unsupported('polynomial too large')
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                d[m] = n
        return Poly({m: c for m, c in d.items() if c})

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def subst(self, table):
        """Substitute variables by polynomials."""
        vs = self.vars()
        if not any(v in table for v in vs):
            return self
        out = Poly({})
        for m, c in self.t.items():
            p = Poly.const(c)
            for v, e in m:
                base = table.get(v) or Poly.var(v)
                for _ in range(e):
                    p = p * base
            out = out + p
        return out

    def z3(self):
        if self._z is None:
            if not self.t:
                self._z = z3.RealVal(0)
            else:
                terms = []
                for m, c in self.t.items():
                    cv = z3.RealVal(str(c))
                    if not m:
                        terms.append(cv)
                    elif c == 1:
                        terms.append(_mono_z3(m))
                    else:
                        terms.append(cv * _mono_z3(m))
                self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._z


P0 = Poly({})
P1 = Poly.const(1)


def frac(x):
    """Exact reading of a concrete Python/numpy number (decimal reading of floats)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    r = repr(float(x))
    f = Fraction(r)
    if len(r) > 15 and 'e' not in r:
        # quotients of small integers are read as such
        g = Fraction(float(x)).limit_denominator(1000)
        if float(g) == float(x):
            return g
    return f


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, bool, _np.bool_))


# --------------------------------------------------------------------------
# executor context
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.proved = 0
        self.folded = 0
        self.branch_q = 0
        self.paths = 0
        self.unsupported = []
        self.inconclusive = []
        self.max_dag = 0

    def as_dict(self):
        return {k: (list(v) if isinstance(v, list) else v) for k, v in self.__dict__.items()}

    def merge(self, d):
        for k, v in d.items():
            if isinstance(v, list):
                getattr(self, k).extend(v)
            elif k == 'max_dag':
                self.max_dag = max(self.max_dag, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class Ctx:
    cur = None

    def __init__(self, stats=None, branch_timeout=1500, prove_timeout=8000):
        self.stats = stats or Stats()
        self.branch_timeout = branch_timeout
        self.prove_timeout = prove_timeout
        self.prefix = []
        self.reset()

    # -- one path -----------------------------------------------------------
    def reset(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.pc = []            # z3 constraints: branches + axioms
        self.trace = []         # decisions of this run: [value, open]
        self.pos = 0
        self.model = None
        self.inputs = {}        # name -> ('real', id, nanflag) etc.
        self.lets = {}          # var id -> Poly (definition)
        self.letmemo = {}
        self.funs = {}          # function name -> list of (args, result)
        self.fresh_n = 0
        self.warn = 'default'   # modelled warnings filter
        self.swallowed = None
        self.unk = 0
        self.notes = []

    def fresh(self, prefix):
        self.fresh_n += 1
        return real_const(f'{prefix}!{self.fresh_n}')

    def add(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check(self, *cs):
        t = time.time()
        r = self.solver.check(*cs)
        dt = time.time() - t
        st = self.stats
        st.queries += 1
        st.branch_q += 1
        st.solver_s += dt
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    def feasible(self, c):
        """sat / unsat / unknown for PC and c; keeps the model when sat."""
        if self.model is not None:
            if z3.is_true(self.model.eval(c, model_completion=True)):
                return z3.sat, self.model
        self.solver.push()
        self.solver.add(c)
        r = self.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        if r == z3.unknown:
            r2, m = self.one_shot(self.pc + [c], self.branch_timeout)
            if r2 != z3.unknown:
                r = r2
        return r, m

    def one_shot(self, cs, timeout):
        s = z3.SolverFor('QF_NRA') if _pure_real(cs) else z3.Solver()
        s.set('timeout', timeout)
        s.add(*cs)
        t = time.time()
        r = s.check()
        st = self.stats
        st.queries += 1
        st.solver_s += time.time() - t
        if r == z3.sat:
            st.sat += 1
            return r, s.model()
        if r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r, None

    def branch(self, cond):
        """Decide a symbolic condition, forking when both outcomes are possible."""
        if cond is True or cond is False:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
            self.trace.append(list(self.prefix[self.pos]))
            self.pos += 1
            self.add(c if v else z3.Not(c))
            return v
        rt, mt = self.feasible(c)
        if rt == z3.unsat:
            v, alt, m = False, False, self.model
            self.trace.append([False, False])
            self.pos += 1
            self.add(z3.Not(c))
            return False
        rf, mf = self.feasible(z3.Not(c))
        if rf == z3.unsat:
            self.trace.append([True, False])
            self.pos += 1
            self.add(c)
            if self.model is None and mt is not None:
                self.model = mt
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.unk += 1
        # prefer a branch known to be feasible
        v = not (rt == z3.unknown and rf == z3.sat)
        self.trace.append([v, True])
        self.pos += 1
        self.add(c if v else z3.Not(c))
        if self.model is None:
            self.model = mt if v else mf
        if len(self.trace) > 4000:
            raise PathLimit('too many branches on one path')
        return v

    def assume(self, cond):
        cond = cond.z if isinstance(cond, SymBool) else bool(cond) if isinstance(cond, _np.bool_) else cond
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond)
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()

    def valid(self, cond, timeout=None):
        """Is cond implied by the path condition?  True / False / None(unknown)."""
        if cond is True:
            return True
        if cond is False:
            cond = z3.BoolVal(False)
        c = z3.simplify(z3.Not(cond), som=True)
        if z3.is_false(c):
            self.stats.queries += 1
            self.stats.unsat += 1
            return True
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(c, model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        self.solver.push()
        self.solver.add(c)
        self.solver.set('timeout', timeout or self.branch_timeout)
        r = self.check()
        self.solver.set('timeout', self.branch_timeout)
        self.solver.pop()
        if r == z3.unknown:
            r, _ = self.one_shot(self.pc + [c], timeout or self.branch_timeout)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    # -- symbolic inputs ------------------------------------------------------
    def real(self, name, nan=False, np=True, lo=None, hi=None, integer=False):
        i = real_const(name)
        flag = z3.Bool(name + '?nan') if nan else None
        x = SymReal(Poly.var(i), P1, flag, np)
        self.inputs[name] = ('real', i, flag)
        if lo is not None:
            self.add(_VARS[i] >= z3.RealVal(str(frac(lo))))
        if hi is not None:
            self.add(_VARS[i] <= z3.RealVal(str(frac(hi))))
        return x

    def boolean(self, name):
        b = z3.Bool(name)
        self.inputs[name] = ('bool', b)
        return SymBool(b)

    def integer(self, name, lo, hi):
        v = z3.Int(name)
        self.inputs[name] = ('int', v)
        self.add(z3.And(v >= lo, v <= hi))
        return SymInt(v, lo, hi)

    def choice(self, name, values):
        """A symbolic member of a finite list of concrete values (strings etc.)."""
        v = z3.Int(name)
        self.inputs[name] = ('choice', v, list(values))
        self.add(z3.And(v >= 0, v < len(values)))
        return SymChoice(v, tuple(values))

    def let(self, p, prefix='L'):
        """Name a polynomial by a fresh variable (keeps queries small)."""
        if len(p.t) <= 1 or len(p.t) <= 5 and len(p.vars()) == 1:
            return p
        k = p.key()
        i = self.letmemo.get(k)
        if i is None:
            i = self.fresh(prefix)
            self.letmemo[k] = i
            self.lets[i] = p
            self.add(_VARS[i] == p.z3())
        return Poly.var(i)

    def expand(self, p):
        n = 0
        while any(v in self.lets for v in p.vars()):
            p = p.subst(self.lets)
            n += 1
            if n > 50:
                break
        return p

    # -- uninterpreted functions with congruence -------------------------------
    def apply(self, fname, args, axioms=None):
        """fname(args) as a fresh real, memoised modulo provable equality of args."""
        lst = self.funs.setdefault(fname, [])
        keys = tuple((a.num.key(), a.den.key()) for a in args)
        for k, a0, r in lst:
            if k == keys:
                return r
        for k, a0, r in lst:
            if all(same_value(self, x, y) for x, y in zip(a0, args)):
                return r
        i = self.fresh(fname)
        res = Poly.var(i)
        if axioms:
            for ax in axioms(_VARS[i]):
                self.add(ax)
        # functional consistency with the other applications
        for k, a0, r in lst:
            eqs = [_eq_z3(x, y) for x, y in zip(a0, args)]
            self.add(z3.Implies(z3.And(*eqs), _VARS[i] == r.z3()))
        lst.append((keys, args, res))
        return res


_PURE_CACHE = {}


def _pure_real(cs):
    """No integer sort anywhere (QF_NRA applicable)?"""
    seen = set()
    stack = list(cs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(e):
            return False
        stack.extend(e.children())
        if len(seen) > 20000:
            return True
    return True


def same_value(ctx, x, y):
    """Cheap proof attempt that two rational functions agree under the PC."""
    d = x.num * y.den - y.num * x.den
    if d.is_zero():
        return True
    if ctx.lets:
        d = ctx.expand(d)
        if d.is_zero():
            return True
    if d.is_const():
        return False
    return ctx.valid(d.z3() == 0, timeout=1000) is True


def _eq_z3(x, y):
    return x.num.z3() * y.den.z3() == y.num.z3() * x.den.z3()


def ctx():
    c = Ctx.cur
    if c is None:
        raise RuntimeError('no symbolic context')
    return c


def unsupported(msg):
    c = Ctx.cur
    if c is not None and c.swallowed is None:
        c.swallowed = msg
    raise Unsupported(msg)


# --------------------------------------------------------------------------
# symbolic booleans
# --------------------------------------------------------------------------
def zb(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymReal):
        return x.truth()
    return z3.BoolVal(bool(x))


class SymBool:
    __slots__ = ('z',)
    __array_priority__ = 1000
    dtype = _np.dtype('bool')

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, zb(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def logical_not(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return SymBool(self.z == zb(o))
        if is_num(o):
            return bool(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return int(bool(self))

    def __add__(self, o):
        return self._n() + (o._n() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * (o._n() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - (o._n() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._n()

    def all(self):
        return self

    def any(self):
        return self

    def __repr__(self):
        return f'SymBool({self.z})'


def sym_and(xs):
    return SymBool(z3.And(*[zb(x) for x in xs]))


def sym_or(xs):
    return SymBool(z3.Or(*[zb(x) for x in xs]))


# --------------------------------------------------------------------------
# symbolic reals (rational functions with an optional NaN flag)
# --------------------------------------------------------------------------
NAN = _np.float64('nan')


def _isinf(x):
    return isinstance(x, (float, _np.floating)) and (x == _np.inf or x == -_np.inf)


def _isnan(x):
    return isinstance(x, (float, _np.floating)) and x != x


def raise_or_warn(kind, msg):
    """A numpy floating point event: raised when the filter is 'error'."""
    if ctx().warn == 'error':
        raise RuntimeWarning(msg)


def lift(x, np=None):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return x.real()
    if isinstance(x, SymChoice):
        return x.real()
    if isinstance(x, SymBool):
        return SymReal(Poly.const(x._n()), P1, None, True)
    return SymReal(Poly.const(frac(x)), P1, None,
                   isinstance(x, _np.generic) if np is None else np)


def liftable(x):
    return isinstance(x, (SymReal, SymInt, SymBool)) or (isinstance(x, SymChoice) and x.numeric) or is_num(x)


class SymReal:
    __slots__ = ('num', 'den', 'nan', 'np')
    __array_priority__ = 1000
    dtype = _np.dtype('float64')
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, num, den=P1, nan=None, np=True):
        self.num = num
        self.den = den
        self.nan = nan
        self.np = np

    # -- helpers --
    def z3(self):
        if self.den.is_const() and self.den.cval() == 1:
            return self.num.z3()
        return self.num.z3() / self.den.z3()

    def notnan(self):
        return z3.BoolVal(True) if self.nan is None else z3.Not(self.nan)

    def nanz(self):
        return z3.BoolVal(False) if self.nan is None else self.nan

    def strip(self):
        return SymReal(self.num, self.den, None, self.np)

    def truth(self):
        z = self.num.z3() != 0
        return z if self.nan is None else z3.Or(self.nan, z)

    def _nanjoin(self, o):
        if self.nan is None:
            return o.nan
        if o.nan is None or o.nan is self.nan or o.nan.eq(self.nan):
            return self.nan
        return z3.Or(self.nan, o.nan)

    def _res(self, num, den, o):
        if not den.is_const():
            num, den = cancel(num, den)
            if den.is_const():
                num, den = num.scale(1 / den.cval()), P1
        return SymReal(num, den, self._nanjoin(o), self.np or o.np)

    # -- arithmetic --
    def __add__(self, o):
        if not liftable(o):
            return NotImplemented
        if _isnan(o):
            return NAN
        if _isinf(o):
            return self._inf_or_nan(o)
        o = lift(o)
        if self.den is o.den or self.den.t == o.den.t:
            return self._res(self.num + o.num, self.den, o)
        return self._res(self.num * o.den + o.num * self.den, self.den * o.den, o)
    __radd__ = __add__

    def _inf_or_nan(self, v):
        if self.nan is not None and ctx().branch(self.nan):
            return NAN
        return _np.float64(v) if self.np else float(v)

    def __neg__(self):
        return SymReal(-self.num, self.den, self.nan, self.np)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not liftable(o):
            return NotImplemented
        if _isnan(o) or _isinf(o):
            return self + (-o)
        return self + (-lift(o))

    def __rsub__(self, o):
        if not liftable(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if not liftable(o):
            return NotImplemented
        if _isnan(o):
            return NAN
        if _isinf(o):
            c = ctx()
            if self.nan is not None and c.branch(self.nan):
                return NAN
            if c.branch(self.num.z3() == 0):
                raise_or_warn('invalid', 'invalid value encountered in scalar multiply')
                return NAN
            return _np.float64(o) if self.sign_branch() > 0 else _np.float64(-o)
        o = lift(o)
        return self._res(self.num * o.num, self.den * o.den, o)
    __rmul__ = __mul__

    def sign_branch(self):
        """+1 / -1 for a value known to be nonzero and not NaN (forks)."""
        return 1 if ctx().branch(_gt0(self)) else -1

    def __truediv__(self, o):
        if not liftable(o):
            return NotImplemented
        if _isnan(o):
            return NAN
        if _isinf(o):
            if self.nan is not None and ctx().branch(self.nan):
                return NAN
            return _np.float64(0.0) if self.np else 0.0
        o = lift(o)
        c = ctx()
        if o.num.is_const():
            zero = o.num.is_zero() if o.nan is None else None
            if zero is False:
                return self._res((self.num * o.den).scale(1 / o.num.cval()), self.den, o)
            zc = z3.BoolVal(True)
        else:
            zc = o.num.z3() == 0
        cond = zc if o.nan is None else z3.And(z3.Not(o.nan), zc)
        if c.branch(cond):
            if not (self.np or o.np):
                raise ZeroDivisionError('float division by zero')
            if self.nan is not None and c.branch(self.nan):
                return NAN
            if c.branch(self.num.z3() == 0):
                raise_or_warn('invalid', 'invalid value encountered in scalar divide')
                return NAN
            raise_or_warn('divide', 'divide by zero encountered in scalar divide')
            return _np.float64('inf') if self.sign_branch() > 0 else _np.float64('-inf')
        if self.den is not P1 and self.den.t == o.den.t:
            return self._res(self.num, o.num, o)
        return self._res(self.num * o.den, self.den * o.num, o)

    def __rtruediv__(self, o):
        if not liftable(o):
            return NotImplemented
        if _isnan(o):
            return NAN
        if _isinf(o):
            c = ctx()
            if c.branch(z3.And(self.notnan(), self.num.z3() == 0)):
                if not self.np and not isinstance(o, _np.generic):
                    raise ZeroDivisionError('float division by zero')
                return o
            if self.nan is not None and c.branch(self.nan):
                return NAN
            return o if self.sign_branch() > 0 else -o
        return lift(o).__truediv__(self)

    def __floordiv__(self, o):
        from . import fn
        return fn.floor(self / o)

    def __rfloordiv__(self, o):
        from . import fn
        return fn.floor(o / self)

    def __mod__(self, o):
        from . import fn
        return fn.mod(self, o)

    def __rmod__(self, o):
        from . import fn
        return fn.mod(o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, e):
        from . import fn
        return fn.power(self, e)

    def __rpow__(self, b):
        from . import fn
        return fn.power(b, self)

    def __abs__(self):
        c = ctx()
        if c.branch(z3.And(self.notnan(), _lt0(self))):
            return -self
        return self

    # -- comparisons --
    def _cmp(self, o, op):
        if isinstance(o, (list, tuple, _np.ndarray)):
            return NotImplemented
        if not liftable(o):
            return NotImplemented
        if _isnan(o):
            return False
        if _isinf(o):
            pos = o > 0
            r = {'<': pos, '<=': pos, '>': not pos, '>=': not pos}[op]
            return SymBool(z3.And(self.notnan(), z3.BoolVal(r))) if self.nan is not None else r
        o = lift(o)
        z = cmp_z3(self, o, op)
        n = self._nanjoin(o)
        if n is not None:
            z = z3.And(z3.Not(n), z)
        return SymBool(z)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def eqz(self, o):
        z = cmp_z3(self, o, '==')
        n = self._nanjoin(o)
        return z if n is None else z3.And(z3.Not(n), z)

    def __eq__(self, o):
        if isinstance(o, (list, tuple, _np.ndarray)):
            return NotImplemented
        if not liftable(o):
            return False
        if _isnan(o) or _isinf(o):
            return False
        return SymBool(self.eqz(lift(o)))

    def __ne__(self, o):
        if isinstance(o, (list, tuple, _np.ndarray)):
            return NotImplemented
        if not liftable(o):
            return True
        if _isnan(o) or _isinf(o):
            return True
        return SymBool(z3.Not(self.eqz(lift(o))))

    def __hash__(self):
        if self.num.is_const() and self.den.is_const() and self.nan is None:
            return hash(self.num.cval() / self.den.cval())
        return 7919          # all symbolic reals collide; equality then forks

    def __bool__(self):
        return ctx().branch(self.truth())

    # -- conversions --
    def const_value(self):
        if self.nan is None and self.num.is_const() and self.den.is_const():
            return self.num.cval() / self.den.cval()
        return None

    def __float__(self):
        v = self.const_value()
        if v is not None:
            return float(v)
        unsupported('conversion of a symbolic real to a machine float')

    def __int__(self):
        v = self.const_value()
        if v is not None:
            return int(v)
        from . import fn
        r = fn.trunc(self)
        return int(r) if not isinstance(r, SymReal) else r.enumerate('conversion of a symbolic real to a machine int')

    def enumerate(self, what):
        """Fork over the small integers this value can be."""
        v = self.const_value()
        if v is not None:
            return int(v)
        for k in range(33):
            for v in ((k, -k) if k else (0,)):
                if bool(self == v):
                    return v
        unsupported(what)

    def __index__(self):
        v = self.const_value()
        if v is not None and v.denominator == 1:
            return int(v)
        if v is None and not self.np:
            return self.enumerate('symbolic real used as an index')
        unsupported('symbolic real used as an index')

    def __complex__(self):
        unsupported('conversion of a symbolic real to complex')

    def __round__(self, n=None):
        from . import fn
        return fn.round_even(self, n)

    def __floor__(self):
        from . import fn
        return fn.py_floor(self)

    def __ceil__(self):
        from . import fn
        return fn.py_ceil(self)

    def __trunc__(self):
        from . import fn
        return fn.trunc(self)

    # -- numpy scalar surface --
    def item(self):
        return SymReal(self.num, self.den, self.nan, False)
    tolist = item

    def astype(self, dt, *a, **k):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_integer(self):
        from . import fn
        return fn.floor(self) == self

    def round(self, n=0):
        from . import fn
        return fn.round_even(self, n)

    def sum(self, *a, **k):
        return self
    mean = min = max = squeeze = sum

    def __getattr__(self, name):
        # methods numpy calls for object-dtype ufuncs
        if name in _UFUNC_METHODS:
            from . import fn
            f = getattr(fn, _UFUNC_METHODS[name])
            return lambda *a: f(self, *a)
        raise AttributeError(name)

    def __repr__(self):
        return f'<sym {str(self.num.z3())[:60]}>'

    def __format__(self, spec):
        return '<sym>'


_UFUNC_METHODS = {'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'floor': 'floor', 'ceil': 'ceil',
                  'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arctan2': 'arctan2', 'rint': 'rint',
                  'fabs': 'fabs', 'square': 'square', 'log10': 'log10', 'arctanh': 'arctanh',
                  'tanh': 'tanh', 'rad2deg': 'degrees', 'deg2rad': 'radians',
                  'degrees': 'degrees', 'radians': 'radians', 'isnan': 'isnan',
                  'isfinite': 'isfinite', 'log1p': 'log1p', 'arctan': 'arctan'}


def _sgn_poly(x):
    """A polynomial with the sign of x (den != 0 on this path)."""
    if x.den.is_const():
        return x.num if x.den.cval() > 0 else -x.num
    return x.num * x.den


def _gt0(x):
    return _sgn_poly(x).z3() > 0


def _lt0(x):
    return _sgn_poly(x).z3() < 0


def cmp_z3(a, b, op):
    """Polynomial form of a op b (both NaN-free, denominators nonzero)."""
    if a.den.t == b.den.t:
        n, d = a.num - b.num, a.den
    else:
        n, d = a.num * b.den - b.num * a.den, a.den * b.den
    if op == '==':
        return n.z3() == 0
    if d.is_const():
        p = n if d.cval() > 0 else -n
        z = p.z3()
        return {'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op]
    nz, dz = n.z3(), d.z3()
    pos, neg = dz > 0, dz < 0
    lo = z3.Or(z3.And(nz < 0, pos), z3.And(nz > 0, neg))
    hi = z3.Or(z3.And(nz > 0, pos), z3.And(nz < 0, neg))
    if op == '<':
        return lo
    if op == '>':
        return hi
    if op == '<=':
        return z3.Not(hi)
    return z3.Not(lo)


# --------------------------------------------------------------------------
# symbolic integers / finite choices
# --------------------------------------------------------------------------
class SymInt:
    """Bounded symbolic Python/numpy integer."""
    __slots__ = ('z', 'lo', 'hi')
    __array_priority__ = 1000
    dtype = _np.dtype('int64')

    def __init__(self, z, lo, hi):
        self.z, self.lo, self.hi = z, lo, hi

    def concrete(self):
        c = ctx()
        for v in range(self.lo, self.hi):
            if c.branch(self.z == v):
                return v
        c.branch(self.z == self.hi)
        return self.hi

    def __index__(self):
        return self.concrete()
    __int__ = __index__

    def __float__(self):
        return float(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __bool__(self):
        return ctx().branch(self.z != 0)

    def real(self):
        i = real_const(f'toreal!{self.z}')
        c = ctx()
        k = ('toreal', str(self.z))
        if k not in c.letmemo:
            c.letmemo[k] = i
            c.add(_VARS[i] == z3.ToReal(self.z))
        return SymReal(Poly.var(i), P1, None, True)

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.z, o.lo, o.hi
        if isinstance(o, (bool, int, _np.integer)):
            return z3.IntVal(int(o)), int(o), int(o)
        if isinstance(o, (float, _np.floating)) and float(o).is_integer():
            return z3.IntVal(int(o)), int(o), int(o)
        return None

    def _isint(self, o):
        return isinstance(o, (SymInt, bool, int, _np.integer))

    def __add__(self, o):
        if self._isint(o):
            z, l, h = self._o(o)
            return SymInt(self.z + z, self.lo + l, self.hi + h)
        if liftable(o):
            return self.real() + o
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return SymInt(-self.z, -self.hi, -self.lo)

    def __sub__(self, o):
        if self._isint(o):
            z, l, h = self._o(o)
            return SymInt(self.z - z, self.lo - h, self.hi - l)
        if liftable(o):
            return self.real() - o
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if self._isint(o):
            z, l, h = self._o(o)
            c = [self.lo * l, self.lo * h, self.hi * l, self.hi * h]
            return SymInt(self.z * z, min(c), max(c))
        if liftable(o):
            return self.real() * o
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.real() / (o.real() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.real()

    def __mod__(self, o):
        if isinstance(o, (int, _np.integer)) and o > 0:
            return SymInt(self.z % int(o), 0, int(o) - 1)
        if isinstance(o, SymInt):
            return self.concrete() % o.concrete()
        return NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, (int, _np.integer)) and o > 0:
            return SymInt(self.z / int(o), self.lo // int(o), self.hi // int(o))
        return NotImplemented

    def __pow__(self, e):
        return self.real() ** e

    def __abs__(self):
        return -self if ctx().branch(self.z < 0) else self

    def _c(self, o, f):
        t = self._o(o) if (self._isint(o) or isinstance(o, (float, _np.floating))) else None
        if t is None:
            if isinstance(o, (list, tuple, _np.ndarray)):
                return NotImplemented
            if liftable(o):
                return f(self.real(), lift(o))
            return None
        return f(self.z, t[0])

    def _w(self, r):
        if r is NotImplemented or isinstance(r, SymBool):
            return r
        return SymBool(r)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is None else self._w(r)

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is None else self._w(r)

    def __lt__(self, o):
        r = self._c(o, lambda a, b: a < b)
        return NotImplemented if r is None else self._w(r)

    def __le__(self, o):
        r = self._c(o, lambda a, b: a <= b)
        return NotImplemented if r is None else self._w(r)

    def __gt__(self, o):
        r = self._c(o, lambda a, b: a > b)
        return NotImplemented if r is None else self._w(r)

    def __ge__(self, o):
        r = self._c(o, lambda a, b: a >= b)
        return NotImplemented if r is None else self._w(r)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self
    tolist = item

    def __repr__(self):
        return f'<symint {self.z}>'

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __str__(self):
        return str(self.concrete())


class SymChoice:
    """A symbolic member of a finite tuple of concrete values.

    Comparisons with constants are solver terms; hashing, string methods and
    anything else first resolve the value by forking over the feasible members.
    """
    __slots__ = ('z', 'values')
    __array_priority__ = 1000

    def __init__(self, z, values):
        self.z, self.values = z, values

    @property
    def numeric(self):
        return is_num(self.values[0])

    def concrete(self):
        c = ctx()
        for i, v in enumerate(self.values[:-1]):
            if c.branch(self.z == i):
                return v
        c.branch(self.z == len(self.values) - 1)
        return self.values[-1]

    def real(self):
        return lift(self.concrete())

    def _match(self, pred):
        return z3.Or(*([self.z == i for i, v in enumerate(self.values) if pred(v)] or [z3.BoolVal(False)]))

    def _rel(self, o, f):
        if isinstance(o, SymChoice):
            return SymBool(z3.Or(*([z3.And(self.z == i, o.z == j)
                                    for i, v in enumerate(self.values)
                                    for j, w in enumerate(o.values) if f(v, w)] or [z3.BoolVal(False)])))
        if isinstance(o, (list, tuple, _np.ndarray)):
            return NotImplemented
        if isinstance(o, (SymReal, SymInt)):
            return f(self.concrete(), o)
        try:
            return SymBool(self._match(lambda v: bool(f(v, o))))
        except TypeError:
            return NotImplemented

    def __eq__(self, o):
        return self._rel(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._rel(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._rel(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.concrete())

    def __bool__(self):
        return ctx().branch(self._match(bool))

    def __str__(self):
        return str(self.concrete())

    def __format__(self, s):
        return format(self.concrete(), s)

    def __repr__(self):
        return repr(self.concrete()) if Ctx.cur else '<symchoice>'

    def __len__(self):
        return len(self.concrete())

    def __iter__(self):
        return iter(self.concrete())

    def __contains__(self, x):
        return x in self.concrete()

    def __getitem__(self, i):
        return self.concrete()[i]

    def __index__(self):
        return self.concrete().__index__()

    def __float__(self):
        return float(self.concrete())

    def __int__(self):
        return int(self.concrete())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __add__(self, o):
        return self.concrete() + (o.concrete() if isinstance(o, SymChoice) else o)

    def __radd__(self, o):
        return o + self.concrete()

    def __sub__(self, o):
        return self.concrete() - (o.concrete() if isinstance(o, SymChoice) else o)

    def __rsub__(self, o):
        return o - self.concrete()

    def __mul__(self, o):
        return self.concrete() * (o.concrete() if isinstance(o, SymChoice) else o)

    def __rmul__(self, o):
        return o * self.concrete()

    def __truediv__(self, o):
        return self.concrete() / (o.concrete() if isinstance(o, SymChoice) else o)

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __neg__(self):
        return -self.concrete()

    def __getattr__(self, name):
        if name.startswith('__') or name in ('dtype', 'shape', 'ndim', 'tzinfo', 'to_numpy'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


SYM = (SymReal, SymInt, SymBool, SymChoice)


def is_sym(x):
    return isinstance(x, SYM)


def _array_aware(cls):
    """Binary operators of symbolic scalars broadcast over arrays, like numpy scalars do."""
    names = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor']
    names = [f'__{n}__' for n in names] + [f'__r{n}__' for n in names] + \
            ['__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__']
    swap = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}

    def wrap(name, f):
        import operator
        refl = name.startswith('__r')
        op = getattr(operator, ('__' + name[3:]) if refl else name)

        def g(self, o):
            if isinstance(o, _np.ndarray):
                from . import npx
                if o.ndim == 0:
                    return op(o.item(), self) if refl else op(self, o.item())
                k = npx.elementwise2(op)
                a = npx.asobj(o) if not isinstance(o, npx.SymArray) else o
                return k(a, self) if refl else k(self, a)
            if isinstance(o, (list, tuple)) and getattr(self, 'np', False):
                from . import npx
                return op(npx.asobj(list(o)), self) if refl else op(self, npx.asobj(list(o)))
            return f(self, o)
        g.__name__ = name
        return g
    for n in names:
        if n in cls.__dict__:
            setattr(cls, n, wrap(n, cls.__dict__[n]))


for _c in (SymReal, SymInt, SymBool, SymChoice):
    _array_aware(_c)
