"""P21: paired equivalence test and equivalence-testing curves."""
import contextlib
from checks.common import *
from checks import aggrun
from symx import explore as X
from symx import fn, libx

ASSUMPTIONS = [REALS, 'the t distribution and its quantiles are uninterpreted odd increasing functions of (argument, degrees of freedom), bounded by the scipy values at nine quantiles; replays use scipy',
               'the correlation coefficient of scipy is replaced by its definition; intervals, power and Bayes factor of the correlation, which are not used here, are not encoded',
               'reading and writing the data files is outside the symbolic run; replays use real files']
U = 'metcalcpy.util.utils'


def tost(s, n, d, sdif, low, high, alpha):
    """Expected result for a mean difference d with standard deviation sdif of the differences."""
    r = s.r7
    df = n - 1
    root = np.sqrt(float(n)) if int(np.sqrt(n)) ** 2 == n else fn.sqrt(Fraction(n)) if s.symbolic else np.sqrt(float(n))
    se = sdif / root
    q1, q2 = libx.t_any('ppf', 1 - alpha, df), libx.t_any('ppf', 1 - alpha / 2, df)
    ci = (d - q1 * se, d + q1 * se)
    ct = (d - q2 * se, d + q2 * se)
    eq = (low * sdif, high * sdif)
    least = lambda a, b: a if a <= b else b
    most = lambda a, b: a if a >= b else b
    margin = most(ci[1] - ci[0], eq[1] - eq[0]) / 10
    out = {'dif': r(d), 'degrees_of_freedom': df, 'ci_tost': tuple(map(r, ci)), 'ci_ttest': tuple(map(r, ct)), 'eqbound': tuple(map(r, eq)),
           'xlim': (r(least(ci[0], eq[0]) - margin), r(most(ci[1], eq[1]) + margin))}
    if se == 0:
        out.update(t=(None, None), p=(None, None), combined_outcome='none', test_outcome='none', tost_outcome='none')
        return out
    t1, t2, t = (d - low * sdif) / se, (d - high * sdif) / se, d / se
    p1, p2 = 1 - libx.t_any('cdf', t1, df), libx.t_any('cdf', t2, df)
    pt = 2 * (1 - libx.t_any('cdf', t if t >= 0 else -t, df))
    po = most(p1, p2)
    out.update(t=(r(t1), r(t2)), p=(r(p1), r(p2)))
    out['combined_outcome'] = {(True, True): 'diff_eqv', (True, False): 'diff_no_eqv', (False, True): 'no_diff_eqv', (False, False): 'no_diff_no_eqv'}[
        bool(pt <= alpha), bool(po <= alpha)]
    out['test_outcome'] = 'significant' if pt < alpha else 'non-significant'
    out['tost_outcome'] = 'significant' if po < alpha else 'non-significant'
    return out


def compare(s, got, exp):
    s.reached(exp['combined_outcome'])
    for k, e in exp.items():
        g = got.get(k) if isinstance(got, dict) else None
        if isinstance(e, tuple):
            for i, x in enumerate(e):
                s.check_same(g[i], x, f'{k}[{i}]')
        elif isinstance(e, str):
            s.check(g == e, k, info=f'{g!r}, expected {e!r}')
        else:
            s.check_same(g, e, k)


def direct(mod, tag, make, n=4, bounds=(-0.001, 0.001), alpha=None, zero=False, expect=('diff_no_eqv', 'no_diff_no_eqv')):
    """make(s) -> m1, m2, sd1, sd2, r, standard deviation of the differences"""
    def harness(s):
        m = s.module(mod)
        m1, m2, sd1, sd2, r, sdif = make(s)
        low, high = [s.real(k) if b is None else b for k, b in zip(('low', 'high'), bounds)]
        s.assume(low < high)
        a = None
        if alpha == 'any':
            a = s.real('alpha', lo=0, hi=1)
            s.assume(a > 0)
            s.assume(a < 1)
        elif alpha is not None:
            a = alpha
        got = s.call(m.tost_paired, n, m1, m2, sd1, sd2, r, low, high, *([a] if a is not None else []))
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        compare(s, got, tost(s, n, m1 - m2, sdif, low, high, a if a is not None else 0.05))
    return Task(f'{mod.split(".")[-1]}.tost_paired[n={n}{tag}]', harness, functions=[f'{mod}.tost_paired'], expect=list(expect) + (['none'] if zero else []),
                bounds=f'{n} pairs; {make.__doc__}', witnesses=6, branch_timeout=2000)


def refusal(mod, kind):
    """Input no test is defined for stops with a message instead of a result."""
    def harness(s):
        m = s.module(mod)
        n, sd1, sd2, r, a = 4, 1.0, 2.0, 0.5, 0.05
        first = pick(s, 'side', [True, False])
        if kind == 'cases':
            n = s.integer('n', -3, 1)
        elif kind == 'spread':
            sd1, sd2 = s.real('sd1'), s.real('sd2')
            s.assume(sd1 <= 0 if first else sd2 <= 0)
        elif kind == 'correlation':
            r = s.real('r')
            s.assume(r > 1 if first else r < -1)
        else:
            a = s.real('alpha')
            s.assume(a >= 1 if first else a < 0)                    # zero stands for the default

        def go():
            try:
                return m.tost_paired(n, s.real('m1'), s.real('m2'), sd1, sd2, r, -0.5, 0.5, a)
            except SystemExit:
                return 'stopped'
        got = s.call(go)
        s.check(isinstance(got, X.Raised) or got == 'stopped', 'refused', info=f'{got!r}')
    return Task(f'{mod.split(".")[-1]} refuses {kind}', harness, functions=[f'{mod}.tost_paired'], witnesses=3, bounds=f'any {kind} out of range')


def scaled(s):
    """any means, standard deviations in the ratio 3:4, no correlation"""
    v = s.real('v', lo=0)
    s.assume(v > 0)
    m2 = s.real('m2')
    return m2 + s.real('k') * v, m2, 3 * v, 4 * v, np.float64(0), 5 * v


def correlated(s):
    """any first mean and correlation, standard deviations 2 and 1"""
    v = s.real('v', lo=1, hi=3)
    return 2 + s.real('k') * v, np.float64(2), np.float64(2), np.float64(1), (5 - v * v) / 4, v


def equal(s):
    """any means, no spread of the differences"""
    return s.real('m1'), s.real('m2'), np.float64(2), np.float64(2), np.float64(1), np.float64(0)


def fixed(s):
    """any first mean, standard deviations 3 and 4"""
    return s.real('m1'), np.float64(1), np.float64(3), np.float64(4), np.float64(0), np.float64(5)


@contextlib.contextmanager
def plain_corr(s):
    """Leaves out the parts of corr() that do not enter the coefficient."""
    if not s.symbolic:
        yield
        return
    m = s.module('metcalcpy.util.correlation')
    keep = {k: getattr(m, k) for k in ('compute_esci', 'power_corr', 'bayesfactor_pearson') if hasattr(m, k)}
    nan = float('nan')
    for k, f in (('compute_esci', lambda *a, **k: np.array([nan, nan])), ('power_corr', lambda *a, **k: nan), ('bayesfactor_pearson', lambda *a, **k: nan)):
        if k in keep:
            setattr(m, k, f)
    try:
        yield
    finally:
        for k, f in keep.items():
            setattr(m, k, f)


def mean(v):
    t = 0
    for x in v:
        t = t + x
    return t / len(v)


PLUS = [1, 1, 1, 1, -1, -1, -1, -1, 0]
ALT = [1, -1, 1, -1, 1, -1, 1, -1, 0]


def curve(name, n, make):
    """calc_derived_curve_value on make(s) -> two lists, standard deviation of the differences or None"""
    def harness(s):
        m = s.module(U)
        a, b, sdif = make(s)
        with plain_corr(s):
            got = s.call(m.calc_derived_curve_value, list(a), list(b), 'ETB')
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        exp = tost(s, n, mean(a) - mean(b), sdif, -0.001, 0.001, 0.05) if sdif is not None else None
        s.check((got is None) == (exp is None), 'missing exactly when undefined', info=f'{got!r}')
        if exp is None:
            s.reached('missing')
        elif got is not None:
            compare(s, got, exp)
    return Task(f'ETB {name}', harness, functions=[f'{U}.calc_derived_curve_value', f'{U}.tost_paired', 'metcalcpy.util.correlation.corr'],
                bounds=f'{n} cases; {make.__doc__}', witnesses=6, branch_timeout=2000)


def size(s):
    x = s.real('x', lo=0)
    s.assume(x > 0)
    return x


def nine(s):
    """any mean, any common scale, uncorrelated"""
    x = size(s)
    m = x * s.real('k')
    return [m + 3 * x * p for p in PLUS], [4 * x * q for q in ALT], 5 * x


def nine_correlated(s):
    """any mean, any common scale, correlation 3/5"""
    x = size(s)
    m = x * s.real('k')
    return [m + 3 * x * p + 4 * x * q for p, q in zip(PLUS, ALT)], [3 * x * p for p in PLUS], 4 * x


def single(s):
    """one case"""
    return [s.real('a')], [s.real('b')], None


def constant_first(s):
    """first group without spread"""
    v = s.real('a')
    return [v, v, v], [s.real('b0'), np.float64(1), np.float64(2)], None


def constant_second(s):
    """second group without spread"""
    v = s.real('b')
    return [s.real('a0'), np.float64(1), np.float64(2)], [v, v, v], None


def lengths(s):
    """different numbers of cases"""
    return [s.real('a0'), s.real('a1')], [s.real('b0'), s.real('b1'), s.real('b2')], None


def absent(s):
    """a missing value"""
    return [s.real('a0'), s.real('a1'), None], [s.real('b0'), s.real('b1'), s.real('b2')], None


@contextlib.contextmanager
def recorded(s, calls):
    """The test itself (decided above) is replaced by a stand-in with arbitrary results."""
    if not s.symbolic:
        yield
        return
    m = s.module(U)
    keep = m.tost_paired, m.corr

    def stand_in(n, m1, m2, sd1, sd2, r12, low, high, alpha=None):
        calls.append((n, m1, m2, low, high, alpha))
        v = s.real('difference'), s.real('lower'), s.real('upper')
        s.assume(v[1] <= v[2])
        return {'dif': v[0], 'ci_tost': v[1:], 't': (0, 0), 'p': (0, 0), 'degrees_of_freedom': n - 1, 'ci_ttest': v[1:], 'eqbound': (0, 0), 'xlim': (0, 0),
                'combined_outcome': 'none', 'test_outcome': 'none', 'tost_outcome': 'none'}
    m.tost_paired = stand_in
    m.corr = lambda *a, **k: {'r': np.array([0.5])}
    try:
        yield
    finally:
        m.tost_paired, m.corr = keep


def tool(name, na, nb, missing=False):
    """ETB curve through the aggregation tool."""
    def harness(s):
        a = [s.real('a0')] + [np.float64(i) for i in range(na - 1)]
        b = [np.float64(2 * i) for i in range(nb)]
        rows = []
        for mod, v in (('A', a), ('B', b)):
            for i, x in enumerate(v):
                rows.append({'model': mod, 'fcst_var': 'TMP', 'fcst_lead': 120000, 'fcst_valid_beg': f'2020-01-{i + 1:02d} 00:00:00', 'stat_name': 'FBAR', 'stat_value': 0.0,
                             'total': np.float64(4 + i), 'fbar': x, 'obar': np.float64(0), 'fobar': np.float64(1), 'ffbar': np.float64(2), 'oobar': np.float64(3), 'mae': np.float64(1)})
        rows = rows[::-1]
        calls = []
        with recorded(s, calls):
            out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                             aggrun.params('sl1l2', ['FBAR'], {'model': ['A', 'B']}, derived=[['A TMP FBAR', 'B TMP FBAR', 'ETB']], indy_vals=['120000']),
                             {k: [r[k] for r in rows] for k in rows[0]})
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(len(out) == 3, 'rows of both series and of the derived curve')
        o = {k: out[k].iloc[2] for k in out.columns}
        s.check(str(o['model']).startswith('ETB(A TMP'), 'derived row is labelled')
        got = [aggrun.cell(o[k]) for k in ('stat_value', 'stat_btcl', 'stat_btcu')]
        if na != nb or na < 2:
            s.reached('missing')
            s.check(got == [None, None, None], 'missing when undefined', info=f'{got}')
            return
        s.reached('value')
        ra, rb = [s.r7(x) for x in a], [s.r7(x) for x in b]
        if s.symbolic:
            if not calls:
                return
            n, m1, m2, low, high, alpha = calls[-1]
            s.check(n == na, 'number of cases of the test')
            s.check_same(m1, mean(ra), 'mean of the first series')
            s.check_same(m2, mean(rb), 'mean of the second series')
            s.check(low == -0.001 and high == 0.001 and alpha in (None, 0.05), 'equivalence bounds and level')
            exp = [s.r7(s.real(k), 5) for k in ('difference', 'lower', 'upper')]
        else:
            d = [x - y for x, y in zip(ra, rb)]
            t = tost(s, na, mean(ra) - mean(rb), float(np.std(d, ddof=1)), -0.001, 0.001, 0.05)
            exp = [s.r7(x, 5) for x in (t['dif'],) + t['ci_tost']]
        if exp[1] > exp[2]:
            exp[1], exp[2] = exp[2], exp[1]
        for g, e, k in zip(got, exp, ('mean difference', 'lower limit', 'upper limit')):
            s.check_same(g, e, k, info=f'{g!r}')
    return Task(f'ETB curve of the tool, {name}', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['missing' if na != nb or na < 2 else 'value'],
                bounds=f'{na} and {nb} cases, one value symbolic; any result of the test', witnesses=4, branch_timeout=2000)


def tasks(tier):
    out = [direct(U, '', scaled), direct(U, ', correlated', correlated), direct(U, ', zero spread', equal, zero=True, expect=()),
           direct(U, ', alpha', fixed, alpha='any'), direct(U, ', bounds', fixed, n=9, bounds=(None, None)), direct(U, ', alpha 0.1', fixed, n=16, alpha=0.1),
           direct(U, ', alpha and wide bounds', fixed, alpha=0.3, bounds=(-2, 1), expect=('no_diff_eqv', 'diff_eqv')),
           # both tests pass narrowly near a difference of zero
           direct(U, ', narrow bounds', fixed, alpha=0.3, bounds=(-0.4, 0.4), expect=('no_diff_eqv', 'no_diff_no_eqv')),
           direct('metcalcpy.util.tost_paired', ', narrow bounds', fixed, alpha=0.3, bounds=(-0.4, 0.4), expect=('no_diff_eqv', 'no_diff_no_eqv')),
           direct('metcalcpy.util.tost_paired', '', fixed), direct('metcalcpy.util.tost_paired', ', wide bounds', fixed, alpha=0.3, bounds=(-2, 1), expect=('no_diff_eqv', 'diff_eqv')),
           curve('uncorrelated', 9, nine), curve('correlated', 9, nine_correlated), curve('one case', 1, single),
           curve('constant first group', 3, constant_first), curve('constant second group', 3, constant_second), curve('lengths', 2, lengths), curve('missing value', 3, absent),
           tool('one case', 1, 1), tool('three cases', 3, 3), tool('four cases', 4, 4), tool('different cases', 3, 2)]
    out += [refusal(mod, kind) for mod in (U, 'metcalcpy.util.tost_paired') for kind in ('cases', 'spread', 'correlation', 'alpha')]
    return out
