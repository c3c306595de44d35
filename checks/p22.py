"""P22: standard errors of time series and the lag-1 coefficient behind them."""
from checks.common import *
from symx import explore as X
from symx import fn, libx

ASSUMPTIONS = [REALS, 'the quartiles are those of linear interpolation; scipy.stats.iqr is replaced by that definition in the symbolic run']
U = 'metcalcpy.util.utils'


def mean(v):
    t = 0
    for x in v:
        t = t + x
    return t / len(v)


def lag1(v):
    """Slope of the least-squares line through (v[i], v[i+1]); None when undefined."""
    if len(v) < 2:
        return None
    x, y = v[:-1], v[1:]
    mx, my = mean(x), mean(y)
    sxx = mean([(a - mx) * (a - mx) for a in x])
    sxy = mean([(a - mx) * (b - my) for a, b in zip(x, y)])
    if sxx == 0:
        return None
    return sxy / sxx


def series(s, shape):
    """None: symbolic; 'm': symbolic or missing; 'n': None or not-a-number; else the number itself"""
    out = []
    for i, v in enumerate(shape):
        if v is None:
            out.append(s.real(f'x[{i}]'))
        elif v == 'm':
            out.append(s.real(f'x[{i}]', nan=True))
        elif v == 'n':
            out.append(pick(s, f'missing[{i}]', [None, np.float64('nan')]))
        else:
            out.append(np.float64(v))
    return out


def present(v):
    return [x for x in v if x is not None and not fn.isnan(x)]


def coef(shape):
    def harness(s):
        m = s.module(U)
        v = series(s, shape)
        got = s.call(m.autocor_coef, list(v))
        exp = lag1(present(v))
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        s.reached('value' if exp is not None else 'undefined')
        s.check_same(got, exp, 'least-squares lag-1 slope')
    return Task(f'autocor_coef {shape}', harness, functions=[f'{U}.autocor_coef'], bounds=f'values {shape} (None: any real, m: any real or missing, n: missing)', witnesses=6)


def inflation(s, a):
    """-> factor, flag, coefficient"""
    if a is None:
        a = 0
    flag = 1 if a > 1 or a < -1 else 0
    if a < 0.3 or a >= 0.99:
        return 1, flag, a
    return fn.sqrt((1 + a) / (1 - a)), flag, a


def quartiles(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(i, 0, -1):
            if v[j] < v[j - 1]:
                v[j], v[j - 1] = v[j - 1], v[j]
    def at(p):
        pos = Fraction(p) * (len(v) - 1)
        lo = int(pos)
        hi = min(lo + 1, len(v) - 1)
        w = pos - lo
        return v[lo] + (v[hi] - v[lo]) * (float(w) if not v or not hasattr(v[lo], 'num') and not hasattr(v[hi], 'num') else w)
    return at(Fraction(3, 4)) - at(Fraction(1, 4))


def error(name, shape, small=False):
    def harness(s):
        m = s.module(U)
        v = series(s, shape)
        got = s.call(getattr(m, 'compute_std_err_from_' + name), list(v))
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        ok = present(v)
        n = len(ok)
        if name in ('mean', 'sum'):
            mu = mean(ok) if ok else 0
            var = mean([(x - mu) * (x - mu) for x in ok]) * n / (n - 1) if n > 1 else 0
            has = n > 2 and var > 0
            base = (lambda: fn.sqrt(var) / np.sqrt(float(n)) * (n if name == 'sum' else 1))
        else:
            iqr = quartiles(ok) if ok else 0
            has = n > 2 and iqr > 0
            base = (lambda: iqr * np.sqrt(np.pi / 2) / (1.349 * np.sqrt(float(n))))
        if not has:
            s.reached('no spread')
            exp = (0, 0, 0)
        elif name.endswith('no_variance_inflation_factor'):
            exp = (base(), 0, 0)
        else:
            f, flag, a = inflation(s, lag1(ok))
            s.reached('inflated' if not isinstance(f, int) else 'not inflated')
            exp = (f * base(), flag, a)
        for g, e, k in zip(got, exp + (n,), ('standard error', 'ratio flag', 'lag-1 coefficient', 'number of values')):
            s.check_same(g, e, k, info=f'{g!r}')
    return Task(f'{name} {shape}', harness, functions=[f'{U}.compute_std_err_from_{name}', f'{U}.autocor_coef'], witnesses=6, branch_timeout=300,
                bounds=f'values {shape} (None: any real, m: any real or missing, n: missing)')


def tasks(tier):
    out = [coef(x) for x in ([], [None], [None, None], [None, None, None], [None] * 4, ['m', 'm', 'm'], [1, 'n', None, 2, None], [None, 1, 1, 3])]
    for k in ('mean', 'sum', 'median_variance_inflation_factor', 'median_no_variance_inflation_factor'):
        for shape in ([], [None], [None, None], [1, 2, None], [1, 1, None], [None, 'n', 2, 5], ['m', 1, 4], [1, None, 3, 4], [2, 1, 3, 3, None]):
            out.append(error(k, shape))
    return out
