"""Uninterpreted stand-ins for scipy functions on symbolic arguments."""
from fractions import Fraction
from . import npx, fn
from .core import SymReal, is_sym, P1, ctx, lift, z3, zb, cmp_z3


def lambertw(x, *a):
    x = lift(fn._norm(x))
    r = ctx().apply('lambertw', [x.strip()], lambda t: [(t > 0) == zb(x.strip() > 0), z3.Implies(zb(x.strip() == 0), t == 0)])
    return SymReal(r, P1, x.nan, True)


npx.OVERRIDES['scipy.special.lambertw'] = lambertw


def lambertw_any(x):
    from .core import is_sym
    if is_sym(x):
        return lambertw(x)
    from scipy.special import lambertw as lw
    return lw(x).real


HUGE = 10 ** 20
GRID = (0.6, 0.7, 0.8, 0.85, 0.9, 0.95, 0.975, 0.99, 0.999)
_GRIDS = {}


def _grid(df):
    """Values of the distribution at some points, with the accuracy of the floating point computation."""
    if df not in _GRIDS:
        from scipy.stats import t
        pts = [float(t.ppf(p, df)) for p in GRID]
        _GRIDS[df] = [(Fraction(x), Fraction(float(t.cdf(x, df))) - Fraction(1, 2)) for x in pts]
    return _GRIDS[df]


# -- Student t: odd part of the distribution function and of its inverse, uninterpreted --------
def _odd(name, x, extra, axioms):
    """f(x, extra) for an odd f: one application for x and -x."""
    num = ctx().expand(x.num) if ctx().lets else x.num
    neg = bool(num.t) and num.t[max(num.t)] < 0
    y = -x if neg else x
    args = [y.strip() if hasattr(y, 'strip') else y] + [lift(e).strip() for e in extra]
    r = ctx().apply(name, args, lambda t: axioms(t, y))
    out = SymReal(r, P1, x.nan, True)
    return -out if neg else out


def _t_half(x, df):
    """cdf - 1/2"""
    x = lift(fn._norm(x))
    if x.num.is_zero():
        return SymReal(x.num, P1, x.nan, True)
    half = z3.RealVal('1/2')

    def ax(t, y):
        # exactly 0 or 1 only for huge arguments, as in floating point
        out = [t <= half, t >= -half, (t == half) == zb(y.strip() >= HUGE), (t == -half) == zb(y.strip() <= -HUGE),
               (t > 0) == zb(y.strip() > 0), (t < 0) == zb(y.strip() < 0)]
        if not is_sym(df):
            eps = Fraction(1, 10 ** 12)
            for g, c in _grid(float(df)):
                for sg in (1, -1):
                    lo, hi = z3.RealVal(str(sg * c - eps)), z3.RealVal(str(sg * c + eps))
                    out += [z3.Implies(zb(y.strip() >= sg * g), t >= lo), z3.Implies(zb(y.strip() <= sg * g), t <= hi)]
        for k, a0, r in ctx().funs.get('t_cdf', []):
            if a0[1].num.key() == lift(df).num.key():
                sat = lambda v: z3.Or(v == half, v == -half)
                out.append(z3.Implies(zb(a0[0] < y.strip()), z3.Or(r.z3() < t, z3.And(r.z3() == t, sat(t)))))
                out.append(z3.Implies(zb(y.strip() < a0[0]), z3.Or(t < r.z3(), z3.And(r.z3() == t, sat(t)))))
        return out
    return _odd('t_cdf', x, [df], ax)


def _standard(loc, scale):
    if loc != 0 or scale != 1:
        from .core import unsupported
        unsupported('shifted or scaled t distribution')


def t_cdf(x, df, loc=0, scale=1):
    _standard(loc, scale)
    from fractions import Fraction
    return _t_half(x, df) + Fraction(1, 2)


def t_sf(x, df, loc=0, scale=1):
    _standard(loc, scale)
    from fractions import Fraction
    return Fraction(1, 2) - _t_half(x, df)


def t_ppf(q, df, loc=0, scale=1):
    _standard(loc, scale)
    from fractions import Fraction
    d = lift(fn._norm(q)) - Fraction(1, 2)
    if d.num.is_zero():
        return d
    return _odd('t_ppf', d, [df], lambda t, y: [(t > 0) == zb(y.strip() > 0), (t < 0) == zb(y.strip() < 0)])


for _n, _f in (('cdf', t_cdf), ('sf', t_sf), ('ppf', t_ppf)):
    npx.OVERRIDES[f'scipy.stats.t.{_n}'] = _f


def t_any(kind, x, df):
    """The same for specifications: symbolic or machine numbers."""
    from .core import is_sym
    if is_sym(x) or is_sym(df):
        return {'cdf': t_cdf, 'sf': t_sf, 'ppf': t_ppf}[kind](x, df)
    from scipy.stats import t
    return getattr(t, kind)(x, df)


# -- correlation ----------------------------------------------------------------
def pearsonr(x, y, *a, **k):
    """Exact coefficient; the p-value is an uninterpreted function of it."""
    x, y = [list(npx.asobj(v).ravel()) for v in (x, y)]
    if len(x) < 2:
        raise ValueError('x and y must have length at least 2.')
    mx, my = npx.np_mean(npx.asobj(x)), npx.np_mean(npx.asobj(y))
    tot = lambda v: npx.lsum(list(v))
    sxx, syy = tot((p - mx) * (p - mx) for p in x), tot((p - my) * (p - my) for p in y)
    sxy = tot((p - mx) * (q - my) for p, q in zip(x, y))
    if sxx == 0 or syy == 0:
        import numpy as np
        return np.float64('nan'), np.float64('nan')
    k = len(x) - 1
    r = (sxy / k) / (fn.sqrt(sxx / k) * fn.sqrt(syy / k))
    r = lift(r)
    ctx().assume(r <= 1)
    ctx().assume(r >= -1)
    p = ctx().apply('pearson_p', [r.strip(), lift(len(x)).strip()], lambda t: [t >= 0, t <= 1])
    return r, SymReal(p, P1, None, True)


npx.OVERRIDES['scipy.stats.pearsonr'] = pearsonr
npx.OVERRIDES['scipy.stats._stats_py.pearsonr'] = pearsonr


def iqr(x, axis=None, rng=(25, 75), scale=1.0, nan_policy='propagate', interpolation='linear', keepdims=False):
    if axis is not None or scale != 1.0 or nan_policy != 'propagate':
        from .core import unsupported
        unsupported('iqr options')
    v = npx.asobj(list(x))
    if v.size == 0:
        import numpy as np
        return np.float64('nan')
    lo, hi = npx.np_percentile(v, list(rng), method=interpolation)
    return hi - lo


npx.OVERRIDES['scipy.stats.iqr'] = iqr
npx.OVERRIDES['scipy.stats._stats_py.iqr'] = iqr


# -- piecewise linear interpolation and masked arrays ------------------------------
def interp(x, xp, fp, left=None, right=None, period=None):
    """numpy.interp for increasing knots."""
    if period is not None:
        from .core import unsupported
        unsupported('periodic interpolation')
    xp, fp = list(npx.asobj(xp).ravel()), list(npx.asobj(fp).ravel())
    left = fp[0] if left is None else left
    right = fp[-1] if right is None else right

    def one(v):
        if fn.isnan(v):
            return npx._np.float64('nan')
        if v < xp[0]:
            return left
        if v > xp[-1]:
            return right
        for i in range(len(xp) - 1, -1, -1):
            if v >= xp[i]:
                if v == xp[i]:
                    return fp[i]
                return fp[i] + (v - xp[i]) * ((fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]))
    if not isinstance(x, (list, npx._np.ndarray)):
        return one(x)
    x = npx.asobj(x)
    return npx.sarr([one(v) for v in x.ravel()], x.shape)


npx.OVERRIDES['numpy.interp'] = interp


def _masked(cmp):
    def f(x, value, copy=True):
        x = npx.asobj(x)
        mask = npx._np.zeros(x.shape, dtype=bool)
        for i in npx._np.ndindex(x.shape):
            mask[i] = bool(cmp(x[i], value))
        return npx._np.ma.MaskedArray(x.view(npx._np.ndarray), mask=mask)
    return f


for _n, _f in {'greater_equal': lambda a, b: a >= b, 'greater': lambda a, b: a > b, 'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
               'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b}.items():
    npx.OVERRIDES[f'numpy.ma.masked_{_n}'] = _masked(_f)


# -- least squares with a concrete matrix --------------------------------------------
def lstsq(a, b, rcond='warn'):
    """numpy.linalg.lstsq for a concrete matrix of full column rank: the solution of the normal equations."""
    from .core import unsupported
    A = npx._np.asarray(a)
    b = npx.asobj(b)
    if A.ndim != 2 or b.ndim != 1 or npx.has_sym(list(A.ravel())):
        unsupported('least squares with a symbolic matrix')
    A = [[Fraction(float(x)) for x in r] for r in A]
    n = len(A[0])
    m = [[sum(r[i] * r[j] for r in A) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for i in range(n):
        p = next((k for k in range(i, n) if m[k][i] != 0), None)
        if p is None:
            unsupported('least squares without full rank')
        m[i], m[p] = m[p], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for k in range(n):
            if k != i:
                m[k] = [x - m[k][i] * y for x, y in zip(m[k], m[i])]
    out = []
    for i in range(n):
        t = 0
        for r, y in zip(A, b):
            t = t + sum(m[i][n + j] * r[j] for j in range(n)) * y
        out.append(t)
    return npx.sarr(out, (n,)), None, n, None


npx.OVERRIDES['numpy.linalg.lstsq'] = lstsq


def detrend(data, axis=-1, type='linear', bp=0, overwrite_data=False):
    """scipy.signal.detrend: what is left of the least-squares line (or the mean)."""
    from .core import unsupported
    if type not in ('linear', 'constant', 'l', 'c') or bp not in (0, None):
        unsupported('detrending with break points')

    def f(v):
        n = len(v)
        mid = Fraction(n - 1, 2)
        den = sum((i - mid) ** 2 for i in range(n))
        out = []
        for i in range(n):
            t = v[i]
            for j in range(n):
                w = Fraction(1, n)
                if type[0] == 'l' and den:
                    w = w + (i - mid) * (j - mid) / den
                if w:
                    t = t - w * v[j]
            out.append(t)
        return npx.sarr(out)
    return npx.along(f, data, axis)


npx.OVERRIDES['scipy.signal.detrend'] = detrend


def fsolve(func, x0, args=(), **kw):
    """scipy.optimize.fsolve: any number; that it is a root, and which, is left to the check,
    which finds unknowns, starting values and the values of the function in ctx().solved."""
    from .core import unsupported, ctx, SymReal, Poly, P1
    if kw:
        unsupported('options of fsolve')
    x0 = npx.asobj(x0)
    if x0.ndim != 1:
        unsupported('fsolve of an array')
    c = ctx()
    w = [SymReal(Poly.var(c.fresh('root')), P1, None, True) for i in x0]
    # zero is no root: spares a division by zero later on
    for v, r in zip(w, npx.asobj(func(npx.sarr([0] * len(w), (len(w),)), *args))):
        if not is_sym(r) and r != 0 or is_sym(r) and c.valid(zb(r != 0)) is True:
            c.add(zb(v != 0))
    c.solved = getattr(c, 'solved', []) + list(zip(w, x0, npx.asobj(func(npx.sarr(w, (len(w),)), *args))))
    return npx.sarr(w, (len(w),))


npx.OVERRIDES['scipy.optimize.fsolve'] = fsolve
npx.OVERRIDES['scipy.optimize._minpack_py.fsolve'] = fsolve
