"""P23: autocorrelation, runs test and revision statistics of MODE time-domain series."""
import statistics
from checks.common import *
from checks.p20 import rnd
from symx import explore as X
from symx import fn

ASSUMPTIONS = [REALS, 'rounding to two digits is uninterpreted within half a unit', 'the normal distribution is only evaluated at numbers, by scipy']
U, C, W = 'metcalcpy.util.utils', 'metcalcpy.util.correlation', 'metcalcpy.util.wald_wolfowitz_runs_test'


def total_of(v):
    t = 0
    for x in v:
        t = t + x
    return t


def ok(x):
    return x is not None and not fn.isnan(x)


def autocov(v, k, mu):
    t, c = 0, 0
    for i in range(len(v) - k):
        if ok(v[i]) and ok(v[i + k]):
            t = t + (v[i] - mu) * (v[i + k] - mu)
            c += 1
    return t / (c + k)


def acf(v, kind, lag):
    """list of estimates for lags 0.. or None"""
    have = [x for x in v if ok(x)]
    if not have or kind not in ('correlation', 'covariance'):
        return None
    mu = total_of(have) / len(have)
    n = len(v)
    if lag is None:
        lag = int(np.floor(10 * np.log10(n)))
    cov = [autocov(v, k, mu) for k in range(min(lag, n - 1) + 1)]
    if kind == 'covariance':
        return cov
    if cov[0] == 0:
        return None
    return [c / cov[0] for c in cov]


def series(s, shape):
    out = []
    for i, v in enumerate(shape):
        if v == 'x':
            out.append(s.real(f'x[{i}]'))
        elif v == 'm':
            out.append(s.real(f'x[{i}]', nan=True))
        elif v == '-':
            out.append(None)
        else:
            out.append(np.float64(v))
    return out


def correlations(shape, lag, kind='correlation'):
    def harness(s):
        m = s.module(C)
        v = series(s, shape)
        got = s.call(m.acf, list(v), kind, lag)
        exp = acf(v, kind, lag)
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        s.reached('missing' if exp is None else 'value')
        s.check((got is None) == (exp is None), 'missing exactly when undefined', info=f'{got!r}')
        if got is None or exp is None:
            return
        s.check(len(got) == len(exp), 'one estimate per lag', info=f'{len(got)}')
        for g, e in zip(got, exp):
            s.check_same(g, e, 'estimate')
    return Task(f'acf {kind} {shape} lag {lag}', harness, functions=[f'{C}.acf', f'{C}.autocovariance'], witnesses=6,
                bounds=f'values {shape} (x: any real, m: any real or missing, -: missing), largest lag {lag}')


def median(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(i, 0, -1):
            if v[j] < v[j - 1]:
                v[j], v[j - 1] = v[j - 1], v[j]
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def runs(v, alternative, threshold):
    """-> statistic, p-value, number of runs, mean, variance"""
    from scipy.stats import norm
    v = [x for x in v if ok(x)]
    if not v:
        return None
    t = median(v) if threshold == 'median' else total_of(v) / len(v)
    signs = [1 if x > t else -1 for x in v if not x == t]
    n1, n2 = signs.count(1), signs.count(-1)
    n = n1 + n2
    if n < 2:
        return None
    r = 1 + sum(a != b for a, b in zip(signs, signs[1:]))
    mu = 1 + 2 * n1 * n2 / n
    var = 2 * n1 * n2 * (2 * n1 * n2 - n) / (n * n * (n - 1))
    if var == 0:
        return None
    z = (r - mu) / np.sqrt(var)
    p = norm.cdf(z)
    p = {'two.sided': 2 * min(p, 1 - p), 'left.sided': p, 'right.sided': 1 - p}[alternative]
    return z, p, r, mu, var


def wald(shape, alternative, threshold):
    def harness(s):
        m = s.module(W)
        v = series(s, shape)
        got = s.call(m.runs_test, list(v), alternative, threshold)
        exp = runs(v, alternative, threshold)
        if exp is None and v and isinstance(got, X.Raised) and isinstance(got.exc, (ZeroDivisionError, statistics.StatisticsError)):
            # recorded finding: the file's name makes it a test file, so it cannot be repaired here
            s.reached('missing')
            return
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        s.reached('missing' if exp is None else 'value')
        if exp is None:
            s.check(got['statistic'] is None and got['p_value'] is None, 'missing when undefined', info=f'{got!r}')
            return
        for k, e in zip(('statistic', 'p_value', 'runs', 'mean_value', 'variance'), exp):
            s.check_same(got[k], e, k)
    return Task(f'runs_test {alternative} {threshold} {shape}', harness, functions=[f'{W}.runs_test'], witnesses=6, max_paths=6000,
                bounds=f'values {shape} (x: any real, m: any real or missing, -: missing)')


def revision(name, n, ids, lag, nan=False, vals=None):
    def harness(s):
        m = s.module(U)
        v = [s.real(f'x[{i}]', nan=nan) if vals is None or vals[i] is None else np.float64(vals[i]) for i in range(n)]
        r = [ids[i][0] if len(ids[i]) == 1 else pick(s, f'revision[{i}]', ids[i]) for i in range(n)]
        got = s.call(m.calculate_mtd_revision_stats, s.frame({'stat_value': v, 'revision_id': r}), *([lag] if lag is not None else []))
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        order = list(dict.fromkeys(r))
        joined = []
        for k in order:
            joined += [x for x, y in zip(v, r) if y == k] + [None]
        joined.pop()
        if not any(ok(x) for x in joined):
            s.reached('missing')
            s.check(all(got[k] is None for k in ('ww_run', 'auto_cor_p', 'auto_cor_r')), 'missing without values', info=f'{got!r}')
            return
        a = acf(joined, 'correlation', lag)
        w = runs(joined, 'left.sided', 'median')
        s.reached('value')
        s.check_same(got['auto_cor_r'], rnd(a[-1], 2) if a is not None else None, 'autocorrelation at the largest lag')
        s.check_same(got['auto_cor_p'], round(0.06270678 / np.sqrt(len(joined)), 2), 'level of the autocorrelation')
        s.check_same(got['ww_run'], round(w[1], 2) if w is not None else None, 'p-value of the runs test')
    return Task(f'revision statistics {name}', harness, functions=[f'{U}.calculate_mtd_revision_stats'], witnesses=6, max_paths=6000,
                bounds=f'{n} values of revisions {ids}, largest lag {lag}')


def undefined(s):
    got = s.call(s.module(W).runs_test, [1.0, 1.0, 1.0], 'two.sided', 'median')
    s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')


def misspelt(s):
    got = s.call(s.module(W).runs_test, [], 'two.sided', 'median')
    s.check('mean_value' in got, 'key of the mean value', info=f'{got!r}')


def known_tasks():
    return [Task('runs_test undefined', undefined), Task('runs_test empty', misspelt)]


def tasks(tier):
    out = []
    for kind in ('correlation', 'covariance'):
        for shape, lag in (('', 1), ('-', 1), ('x', 2), ('xx', 1), ('x-x', 2), ('x2-x', 3), ('mm', 1), ('13x25', 2), ('1x24x', None)):
            out.append(correlations(shape, lag, kind))
    out.append(correlations('xx', 1, 'other'))
    for t in ('median', 'mean'):
        for shape in ('', '--', 'x', 'xx', 'xxx', 'mmm', 'xxxx', 'x1x-32'):
            out.append(wald(shape, 'two.sided', t))
        for alt in ('left.sided', 'right.sided'):
            out.append(wald('1x3x2', alt, t))
    A, B = ['a'], ['a', 'b']
    out += [revision('one value', 1, [A], None), revision('two values', 2, [B, B], 1), revision('three values', 3, [A, B, B], 1, vals=[None, None, 1]),
            revision('missing values', 2, [A, B], None, nan=True), revision('four values', 4, [A, B, ['b'], B], 2, vals=[None, 1, 0, 3]),
            revision('default lag', 4, [['b'], B, B, ['b']], None, vals=[2, 1, None, 3])]
    return out
