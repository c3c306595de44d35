"""Scalar functions on symbolic reals (numpy flavour and math flavour)."""
import math as _math
from fractions import Fraction
import numpy as _np
from .core import (z3, ctx, Ctx, SymReal, SymBool, SymInt, SymChoice, Poly, P0, P1, lift, liftable, is_sym,
                   is_num, frac, unsupported, raise_or_warn, NAN, _VARS, _gt0, _lt0,
                   cmp_z3, zb, _isinf, _isnan)


def _norm(x):
    if isinstance(x, SymChoice):
        return x.concrete()
    if isinstance(x, SymInt):
        return x.real()
    if isinstance(x, SymBool):
        return bool(x)
    return x


def npf(x):
    """Concrete number as numpy float64 (keeps Fractions symbolic)."""
    if isinstance(x, Fraction):
        return lift(x, True)
    return _np.float64(x)


def _mk(p, x):
    return SymReal(p, P1, x.nan, x.np)


def make_den_positive(x):
    """Rewrite num/den with den provably positive when the solver can tell."""
    if x.den.is_const():
        return x if x.den.cval() > 0 else SymReal(-x.num, -x.den, x.nan, x.np), True
    c = ctx()
    dz = x.den.z3()
    r = c.valid(dz > 0, 1000)
    if r is True:
        return x, True
    if c.valid(dz < 0, 1000) is True:
        return SymReal(-x.num, -x.den, x.nan, x.np), True
    return x, False


def _exact_root(x):
    """Root of k*v^2.. with a rational square k and variables of known sign."""
    if len(x.num.t) != 1:
        return None
    (m, k), = x.num.t.items()
    if not m or any(e % 2 for _, e in m):
        return None
    k = Fraction(k) / Fraction(x.den.cval())
    if k <= 0:
        return None
    rn, rd = _math.isqrt(k.numerator), _math.isqrt(k.denominator)
    if rn * rn != k.numerator or rd * rd != k.denominator:
        return None
    out, c = Poly.const(Fraction(rn, rd)), ctx()
    for i, e in m:
        v = Poly.var(i)
        if (e // 2) % 2:
            if c.valid(_VARS[i] >= 0, 500) is True:
                pass
            elif c.valid(_VARS[i] <= 0, 500) is True:
                v = -v
            else:
                return None
        for _ in range(e // 2):
            out = out * v
    return SymReal(out, P1, x.nan, x.np)


def _sqrt_nonneg(x):
    """Square root of a value known to be >= 0 on this path."""
    v = x.const_value()
    if v is not None:
        rn, rd = _math.isqrt(v.numerator), _math.isqrt(v.denominator)
        if rn * rn == v.numerator and rd * rd == v.denominator:
            return SymReal(Poly.const(Fraction(rn, rd)), P1, None, x.np)
    x, pos = make_den_positive(x)
    if pos and x.den.is_const():
        e = _exact_root(x)
        if e is not None:
            return e
    if pos and not x.den.is_const():
        r = ctx().apply('sqrt', [SymReal(x.num * x.den, P1, None, x.np)],
                        lambda v: [v >= 0, v * v == (x.num * x.den).z3()])
        return SymReal(r, x.den, x.nan, x.np)
    if pos and x.den.is_const() and x.den.cval() != 1:
        x = SymReal(x.num.scale(1 / x.den.cval()), P1, x.nan, x.np)
    r = ctx().apply('sqrt', [SymReal(x.num, x.den, None, x.np)],
                    lambda v: [v >= 0, v * v * x.den.z3() == x.num.z3()])
    return SymReal(r, P1, x.nan, x.np)


def sqrt(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.sqrt(npf(x)) if not isinstance(x, Fraction) else sqrt(lift(x, True))
    if ctx().branch(z3.And(x.notnan(), _lt0(x))):
        raise_or_warn('invalid', 'invalid value encountered in sqrt')
        return NAN
    r = _sqrt_nonneg(x)
    r.np = True
    return r


def m_sqrt(x):
    x = _norm(x)
    if not is_sym(x):
        return _math.sqrt(x)
    if ctx().branch(z3.And(x.notnan(), _lt0(x))):
        raise ValueError('math domain error')
    r = _sqrt_nonneg(x)
    r.np = False
    return r


def _log_const(v):
    f = Fraction(_math.log(v)).limit_denominator(10 ** 18)
    e = Fraction(1, 10 ** 14)
    return lambda z: [z >= z3.RealVal(str(f - e)), z <= z3.RealVal(str(f + e))]


def _log_pos(x):
    """log of a provably positive symbolic value, in a canonical form."""
    c = ctx()
    v = x.const_value()
    if v is not None:
        if v == 1:
            return SymReal(P0, P1, None, x.np)
        return SymReal(c.apply('log', [x.strip()], _log_const(v)), P1, None, x.np)
    if not x.den.is_const():
        x2, pos = make_den_positive(x)
        if pos:
            a = _log_pos(SymReal(x2.num, P1, None, x.np))
            b = _log_pos(SymReal(x2.den, P1, None, x.np))
            return a - b
    elif x.den.cval() != 1:
        x = SymReal(x.num.scale(1 / x.den.cval()), P1, x.nan, x.np)
    if x.den.is_const() and len(x.num.t) == 1:
        (m, k), = x.num.t.items()
        if (len(m) > 1 or k != 1 or m[0][1] > 1) and k > 0:
            if all(c.valid(_VARS[i] > 0, 1000) is True for i, _ in m):
                out = SymReal(P0, P1, None, x.np)
                if k != 1:
                    out = out + _log_pos(SymReal(Poly.const(k), P1, None, x.np))
                for i, e in m:
                    out = out + _log_pos(SymReal(Poly.var(i), P1, None, x.np)) * e
                if k != 1 and len(m) == 1:
                    c.add((out.num.z3() > 0) == zb(x > 1))
                    c.add((out.num.z3() == 0) == zb(x == 1))
                return out
    r = c.apply('log', [x.strip()],
                lambda z: [(z > 0) == zb(x > 1), (z == 0) == zb(x == 1)])
    return SymReal(r, P1, None, x.np)


def _log_generic(x):
    r = _log_pos(x.strip())
    return SymReal(r.num, r.den, x.nan, x.np)


def log(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.log(npf(x))
    c = ctx()
    if c.branch(z3.And(x.notnan(), x.num.z3() == 0)):
        raise_or_warn('divide', 'divide by zero encountered in log')
        return _np.float64('-inf')
    if c.branch(z3.And(x.notnan(), _lt0(x))):
        raise_or_warn('invalid', 'invalid value encountered in log')
        return NAN
    r = _log_generic(x)
    r.np = True
    return r


def m_log(x, base=None):
    x = _norm(x)
    if base is not None:
        return m_log(x) / m_log(base)
    if not is_sym(x):
        return _math.log(x)
    c = ctx()
    if c.branch(z3.And(x.notnan(), z3.Not(_gt0(x)))):
        raise ValueError('math domain error')
    r = _log_generic(x)
    r.np = False
    return r


def log10(x):
    r = log(x)
    return r / lift(_math.log(10)) if is_sym(r) else r / _np.log(10)


def log1p(x):
    return log(x + 1)


def exp(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.exp(npf(x))
    r = ctx().apply('exp', [x.strip()], lambda z: [z > 0, (z > 1) == zb(x.strip() > 0), (z == 1) == zb(x.strip() == 0)])
    return SymReal(r, P1, x.nan, x.np)


def m_exp(x):
    x = _norm(x)
    if not is_sym(x):
        return _math.exp(x)
    r = exp(x)
    r.np = False
    return r


def _uf(name, axioms=None):
    def f(x):
        x = _norm(x)
        if not is_sym(x):
            return getattr(_np, name)(npf(x))
        r = ctx().apply(name, [x.strip()], axioms(x.strip()) if axioms else None)
        return SymReal(r, P1, x.nan, x.np)
    return f


def _trig_pair(x):
    c = ctx()
    s = c.apply('sin', [x])
    co = c.apply('cos', [x])
    k = ('trig', s.key(), co.key())
    if k not in c.letmemo:
        c.letmemo[k] = 1
        c.add(s.z3() * s.z3() + co.z3() * co.z3() == 1)
        x0 = zb(x == 0)
        c.add(z3.Implies(x0, z3.And(s.z3() == 0, co.z3() == 1)))
    return s, co


def sin(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.sin(npf(x))
    return SymReal(_trig_pair(x.strip())[0], P1, x.nan, x.np)


def cos(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.cos(npf(x))
    return SymReal(_trig_pair(x.strip())[1], P1, x.nan, x.np)


def tan(x):
    if not is_sym(_norm(x)):
        return _np.tan(npf(_norm(x)))
    return sin(x) / cos(x)


PI = z3.RealVal(str(frac(_math.pi)))


def arctan2(y, x):
    y, x = _norm(y), _norm(x)
    if not is_sym(y) and not is_sym(x):
        return _np.arctan2(npf(y), npf(x))
    if _isinf(x) or _isinf(y):
        unsupported('arctan2 of infinity')
    if _isnan(x) or _isnan(y):
        return NAN
    y, x = lift(y), lift(x)

    def ax(t):
        yp, yn = _gt0(y), _lt0(y)
        xp, xn = _gt0(x), _lt0(x)
        y0, x0 = y.num.z3() == 0, x.num.z3() == 0
        return [t > -PI, t <= PI,
                z3.Implies(yp, z3.And(t > 0, t < PI)),
                z3.Implies(yn, z3.And(t < 0)),
                z3.Implies(z3.And(y0, z3.Not(xn)), t == 0),
                z3.Implies(z3.And(y0, xn), t == PI),
                z3.Implies(z3.And(x0, yp), t == PI / 2),
                z3.Implies(z3.And(x0, yn), t == -PI / 2),
                z3.Implies(z3.And(xp, yp), t < PI / 2),
                z3.Implies(z3.And(xp, yn), t > -PI / 2),
                z3.Implies(z3.And(xn, yp), t > PI / 2),
                z3.Implies(z3.And(xn, yn), t < -PI / 2)]
    r = ctx().apply('arctan2', [y.strip(), x.strip()], ax)
    return SymReal(r, P1, y._nanjoin(x), True)


arctan = _uf('arctan')
tanh = _uf('tanh', lambda x: (lambda t: [t > -1, t < 1, (t > 0) == zb(x > 0), (t == 0) == zb(x == 0)]))


def arctanh(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.arctanh(npf(x))
    c = ctx()
    if c.branch(z3.And(x.notnan(), zb((x.strip() > 1) | (x.strip() < -1)))):
        raise_or_warn('invalid', 'invalid value encountered in arctanh')
        return NAN
    if c.branch(z3.And(x.notnan(), zb((x.strip() == 1) | (x.strip() == -1)))):
        raise_or_warn('divide', 'divide by zero encountered in arctanh')
        return _np.float64('inf') if x.strip() == 1 else _np.float64('-inf')
    s = x.strip()
    r = c.apply('arctanh', [s], lambda t: [(t > 0) == zb(s > 0), (t == 0) == zb(s == 0)])
    return SymReal(r, P1, x.nan, True)


def degrees(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.degrees(npf(x))
    return x * 180 / lift(_math.pi)


def radians(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.radians(npf(x))
    return x * lift(_math.pi) / 180


def m_degrees(x):
    r = degrees(x)
    if is_sym(r):
        r.np = False
    return r


def _floor_poly(x):
    v = x.const_value()
    if v is not None:
        k = v.numerator // v.denominator
        # equal arguments that are not recognised as constants have to agree with it
        ctx().apply('floor', [x.strip()], lambda f: [f == k])
        return Poly.const(k)
    s = x.strip()
    # integer offsets come out of the floor, so that equal values share one atom
    if s.den.is_const():
        s = SymReal(s.num.scale(1 / s.den.cval()), P1, None, s.np)
        k = s.num.cval()
        whole = k.numerator // k.denominator
        if whole and not s.num.is_const():
            return _floor_poly(SymReal(s.num - Poly.const(whole), P1, None, s.np)) + Poly.const(whole)

    def ax(f):
        fx = SymReal(Poly.var(_varid(f)), P1, None, True)
        return [cmp_z3(fx, s, '<='), cmp_z3(fx + 1, s, '>')]
    return ctx().apply('floor', [s], ax)


def _varid(z):
    from .core import _VARID
    return _VARID[z.decl().name()]


def floor(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.floor(npf(x))
    return SymReal(_floor_poly(x), P1, x.nan, True)


def ceil(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.ceil(npf(x))
    return -floor(-x)


def py_floor(x):
    x = _norm(x)
    if not is_sym(x):
        return _math.floor(x)
    if x.nan is not None and ctx().branch(x.nan):
        raise ValueError('cannot convert float NaN to integer')
    return SymReal(_floor_poly(x), P1, None, False)


def py_ceil(x):
    x = _norm(x)
    if not is_sym(x):
        return _math.ceil(x)
    return -py_floor(-x)


def trunc(x):
    x = _norm(x)
    if not is_sym(x):
        return _math.trunc(x)
    if ctx().branch(z3.And(x.notnan(), _lt0(x))):
        return py_ceil(x)
    return py_floor(x)


def rint(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.rint(npf(x))
    s = x.strip()
    v = x.const_value()
    if v is not None:
        k = Fraction(round(v))
        ctx().apply('rint', [s], lambda f: [f == int(k)])
        return SymReal(Poly.const(k), P1, x.nan, x.np)

    def ax(f):
        fx = SymReal(Poly.var(_varid(f)), P1, None, True)
        return [cmp_z3(fx - Fraction(1, 2), s, '<='), cmp_z3(fx + Fraction(1, 2), s, '>=')]
    return SymReal(ctx().apply('rint', [s], ax), P1, x.nan, x.np)


def round_even(x, n=None):
    x = _norm(x)
    if not is_sym(x):
        return _np.round(x, n or 0) if isinstance(x, _np.generic) else round(x, n)
    m = Fraction(10) ** int(n or 0)
    if n is None and x.nan is not None and ctx().branch(x.nan):
        raise ValueError('cannot convert float NaN to integer')
    return rint(x * m) / m


def mod(x, y):
    x, y = _norm(x), _norm(y)
    if not is_sym(x) and not is_sym(y):
        return x % y
    q = x / y
    if not is_sym(q):
        return NAN
    if not is_sym(y):
        # a few whole multiples are told apart exactly
        for k in (0, 1, -1, 2, -2):
            if q >= k and q < k + 1:
                return x - y * k
    return x - y * floor(q)


def power(b, e):
    b, e = _norm(b), _norm(e)
    if is_sym(e):
        v = e.const_value()
        if v is None:
            unsupported('symbolic exponent')
        e = v
    if isinstance(e, (_np.ndarray, list)):
        return NotImplemented
    if not is_num(e) or _isnan(e) or _isinf(e):
        unsupported(f'exponent {e!r}')
    if not is_sym(b):
        return b ** e
    fe = frac(e)
    if fe.denominator == 1:
        k = int(fe)
        npk = b.np or isinstance(e, _np.generic)
        r = SymReal(P1, P1, None, npk)
        for _ in range(abs(k)):
            r = r * b
        if k < 0:
            return SymReal(P1, P1, None, npk) / r
        return r
    if fe == Fraction(1, 2):
        if b.np:
            return sqrt(b)
        if ctx().branch(z3.And(b.notnan(), _lt0(b))):
            unsupported('complex power')
        r = _sqrt_nonneg(b)
        return r
    if fe == Fraction(-1, 2):
        return SymReal(P1, P1, None, b.np) / power(b, Fraction(1, 2))
    if fe.denominator == 2:
        return power(b, fe.numerator) if False else sqrt(b) ** fe.numerator
    if ctx().branch(z3.And(b.notnan(), _lt0(b))):
        if not b.np:
            unsupported('complex power')
        raise_or_warn('invalid', 'invalid value encountered in power')
        return NAN
    if ctx().branch(z3.And(b.notnan(), b.num.z3() == 0)):
        if fe > 0:
            return SymReal(P0, P1, None, b.np)
        if not b.np:
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
        raise_or_warn('divide', 'divide by zero encountered in power')
        return _np.float64('inf')
    r = ctx().apply(f'pow[{fe}]', [b.strip()], lambda t: [t > 0])
    return SymReal(r, P1, b.nan, b.np)


def square(x):
    return x * x


def fabs(x):
    return abs(_norm(x))


def absolute(x):
    return abs(_norm(x))


def isnan(x):
    x = _norm(x)
    if isinstance(x, SymReal):
        return SymBool(x.nan) if x.nan is not None else False
    if x is None:
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return bool(_np.isnan(x)) if not isinstance(x, Fraction) else False


def isinf(x):
    x = _norm(x)
    if isinstance(x, SymReal):
        return False
    return bool(_np.isinf(x))


def isfinite(x):
    x = _norm(x)
    if isinstance(x, SymReal):
        return SymBool(z3.Not(x.nan)) if x.nan is not None else True
    return bool(_np.isfinite(x))


def sign(x):
    x = _norm(x)
    if not is_sym(x):
        return _np.sign(npf(x))
    if x.nan is not None and ctx().branch(x.nan):
        return NAN
    if x.strip() == 0:
        return _np.float64(0)
    return _np.float64(1) if x.strip() > 0 else _np.float64(-1)


def add(a, b): return _norm(a) + _norm(b)
def subtract(a, b): return _norm(a) - _norm(b)
def multiply(a, b): return _norm(a) * _norm(b)


def divide(a, b):
    a, b = _norm(a), _norm(b)
    if not is_sym(a):
        a = npf(a)
    return a / b


def negative(a): return -_norm(a)


def maximum(a, b):
    a, b = _norm(a), _norm(b)
    if bool(isnan(a)):
        return NAN
    if bool(isnan(b)):
        return NAN
    return a if a >= b else b


def minimum(a, b):
    a, b = _norm(a), _norm(b)
    if bool(isnan(a)):
        return NAN
    if bool(isnan(b)):
        return NAN
    return a if a <= b else b


def fmax(a, b):
    if bool(isnan(a)):
        return b
    if bool(isnan(b)):
        return a
    return a if a >= b else b


def fmin(a, b):
    if bool(isnan(a)):
        return b
    if bool(isnan(b)):
        return a
    return a if a <= b else b


def hypot(a, b):
    return sqrt(_norm(a) * _norm(a) + _norm(b) * _norm(b))


def masked(x):
    """x with NaN replaced by zero, as a single named atom when NaN is possible."""
    x = _norm(x)
    if isinstance(x, SymReal):
        if x.nan is None:
            return x
        c = ctx()
        r = c.apply('nz:' + x.nan.sexpr(), [SymReal(x.num, x.den, None, True)])
        k = ('nz', r.key())
        if k not in c.letmemo:
            c.letmemo[k] = 1
            rz = r.z3()
            c.add(z3.If(x.nan, rz == 0, rz * x.den.z3() == x.num.z3()))
        return SymReal(r, P1, None, x.np)
    if _isnan(x):
        return _np.float64(0)
    return x


def let(x):
    """Name a long polynomial by a fresh variable."""
    if not isinstance(x, SymReal):
        return x
    c = ctx()
    n = c.let(x.num) if len(x.num.t) > 1 else x.num
    d = c.let(x.den) if len(x.den.t) > 1 else x.den
    return SymReal(n, d, x.nan, x.np)
