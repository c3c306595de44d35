"""P32: weather regimes: labels, patterns and frequencies of the clusters."""
import os
import types
from itertools import permutations
from checks.common import *
from symx import explore as X
from symx import fn, libx

ASSUMPTIONS = [REALS, 'the K-means clustering and the correlation of two patterns are replaced by stand-ins that hand out any labels, centres, inertias and correlations',
               'the EOF analysis and the removal of trends are outside the bounds']
M = 'metcalcpy.contributed.blocking_weather_regime.WeatherRegime'
U = 'metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util'
W = f'{M}.WeatherRegimeCalculation'
NAN = np.float64('nan')


def make(s, **env):
    old = dict(os.environ)
    os.environ.update({f'T_{k}': str(v) for k, v in env.items()}, SCRIPT_OUTPUT_BASE='/nonexistent')
    try:
        m = s.module(M)
        return m, m.WeatherRegimeCalculation('T')
    finally:
        os.environ.clear()
        os.environ.update(old)


def clusters(k, years, days):
    """Regimes are numbered from the most to the least frequent cluster."""
    n = years * days

    def harness(s):
        m, w = make(s, WR_NUMBER=k)
        labels = [s.integer(f'label[{i}]', 0, k - 1) for i in range(n)]
        centre = [[s.real(f'centre[{c},{x}]', np=True) for x in range(2)] for c in range(k)]

        class KMeans:
            def __init__(self, n_clusters=8, random_state=None):
                s.check(n_clusters == k, 'number of clusters asked for', info=f'{n_clusters}')

            def fit(self, a):
                self.data = a
                self.labels_ = s.vector([x for x in labels]) if s.symbolic else np.array(labels)
                self.cluster_centers_ = s.table([list(c) for c in centre])
                return self
        m.KMeans = KMeans
        out = s.call(w.run_K_means, s.table([[0.0, 0.0]] * n), {}, (years, days, 1, 2))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        pattern, num, perc, wr = out
        size = [sum(1 for x in labels if x == c) for c in range(k)]
        s.check(num == k, 'number of regimes')
        for r in range(k):
            s.check_same(perc[r], sorted(size, reverse=True)[r] / n, 'frequency of the regime', info=f'regime {r + 1}, sizes {size}')
        # clusters of the same size may be numbered in either order
        seen = {}
        for i in range(n):
            c, r = int(labels[i]), int(wr[i // days][i % days])
            s.check(seen.setdefault(c, r) == r and 1 <= r <= k, 'one number per cluster', info=f'{labels} -> {wr}')
            s.check(size[c] == sorted(size, reverse=True)[r - 1], 'number of the regime by its frequency', info=f'cluster {c} of {size} is regime {r}')
        s.check(len(set(seen.values())) == len(seen), 'different numbers for different clusters', info=f'{seen}')
        for c, r in seen.items():
            for x in range(2):
                s.check_same(pattern[r - 1][0][x], centre[c][x], 'pattern of the regime', info=f'cluster {c} is regime {r}')
    return Task(f'clusters[{k},{years}x{days}]', harness, functions=[f'{W}.run_K_means', f'{W}.get_cluster_fraction'], witnesses=4, max_paths=1200,
                bounds=f'{k} clusters, {years} seasons of {days} days, any labels and centres')


def frequency(k, years, days, step):
    def harness(s):
        m, w = make(s, WR_NUMBER=k, WR_FREQ=step)
        wr = [[s.integer(f'wr[{y},{d}]', 1, k) for d in range(days)] for y in range(years)]
        out = s.call(w.compute_wr_freq, s.table(wr))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(tuple(out[0].shape) == (k, years, days - step + 1) and out[1] == days - step + 1 and out[2] == step, 'size of the result', info=f'{out[0].shape} {out[1:]}')
        for r in range(k):
            for y in range(years):
                for d in range(days - step + 1):
                    s.check_same(out[0][r][y][d], sum(1 for x in wr[y][d:d + step] if x == r + 1), 'days of the regime in the window', info=f'regime {r + 1}, season {y}, day {d}')
    return Task(f'frequency[{k},{years}x{days},{step}]', harness, functions=[f'{W}.compute_wr_freq'], max_paths=1200, witnesses=4, bounds=f'{k} regimes, {years} seasons of {days} days, windows of {step} days, any regimes')


def reorder(k, years, days):
    def harness(s):
        m = s.module(U)
        order = list(pick(s, 'order', [list(p) for p in permutations(range(1, k + 1))]))
        wr = [[s.integer(f'wr[{y},{d}]', 1, k) for d in range(days)] for y in range(years)]
        pat = [[[s.real(f'pattern[{c},{x}]', np=True) for x in range(2)]] for c in range(k)]
        perc = [s.real(f'perc[{c}]', np=True) for c in range(k)]
        out = s.call(m.reorder_fcst_regimes, s.table(pat), s.vector(perc), s.table(wr), k, order)
        check_order(s, out, order, wr, pat, perc)
    return Task(f'reorder[{k},{years}x{days}]', harness, functions=[f'{U}.reorder_fcst_regimes'], max_paths=1200, witnesses=4, bounds=f'{k} regimes, every order, {years} seasons of {days} days, any values')


def check_order(s, out, order, wr, pat, perc):
    s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
    if isinstance(out, X.Raised):
        return
    for r, o in enumerate(order):
        s.check_same(out[1][r], perc[o - 1], 'frequency of the regime', info=f'regime {r + 1}, order {order}')
        for x in range(2):
            s.check_same(out[0][r][0][x], pat[o - 1][0][x], 'pattern of the regime', info=f'regime {r + 1}, order {order}')
    for y, row in enumerate(wr):
        for d, o in enumerate(row):
            s.check_same(out[2][y][d], order.index(int(o)) + 1, 'number of the regime of the day', info=f'season {y}, day {d}, order {order}')


def correlate(k):
    """Forecast regimes take the number of the observed regime they correlate best with."""
    def harness(s):
        m = s.module(U)
        c = [[s.real(f'corr[{i},{j}]', lo=-1, hi=1, np=True) for j in range(k)] for i in range(k)]
        obs = [[[float(i), 0.0]] for i in range(k)]
        pat = [[[float(10 + j), 1.0]] for j in range(k)]
        perc = [s.real(f'perc[{j}]', np=True) for j in range(k)]
        wr = [[s.integer(f'wr[{d}]', 1, k) for d in range(2)]]
        m.stats = types.SimpleNamespace(pearsonr=lambda a, b: (c[int(list(a)[0])][int(list(b)[0]) - 10], 0.5))
        order = []
        for i in range(k):
            best = 0
            for j in range(1, k):
                s.assume(c[i][j] != c[i][best])
                if c[i][j] > c[i][best]:
                    best = j
            order.append(best + 1)
        s.assume(len(set(order)) == k)
        out = s.call(m.reorder_fcst_regimes_correlate, np.array(obs), np.array(pat), s.vector(perc), s.table(wr), k)
        check_order(s, out, order, wr, pat, perc)
    return Task(f'correlate[{k}]', harness, functions=[f'{U}.reorder_fcst_regimes_correlate', f'{U}.reorder_fcst_regimes'], max_paths=1200, witnesses=4,
                bounds=f'{k} regimes, any correlations without ties that match each forecast regime to one observed regime')


def elbow(numi):
    """The number of clusters where the inertia is farthest below the line between its ends."""
    def harness(s):
        m, w = make(s, NUM_CLUSTERS=numi)
        n = numi - 1
        inertia = [s.real(f'inertia[{i}]', np=True) for i in range(n)]
        asked = []

        class KMeans:
            def __init__(self, n_clusters=8, random_state=None):
                self.n = n_clusters

            def fit(self, a):
                asked.append(self.n)
                self.inertia_ = inertia[self.n - 1]
                return self
        m.KMeans = KMeans
        out = s.call(w.run_elbow, s.table([[0.0]]))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        K, d, mi, line, curve = out
        s.check(list(K) == list(range(1, numi)) == asked, 'numbers of clusters tried', info=f'{asked}')
        a = [(inertia[-1] - inertia[0]) / (n - 1) * i + inertia[0] for i in range(n)]
        low = a[0] - inertia[0]
        for i in range(n):
            s.check_same(curve[i] * 1e10, inertia[i], 'curve of the inertia', info=f'{i}')
            s.check(s.close(line[i] * 1e10, a[i], 1e-6), 'line between the ends', info=f'{i}')
            if a[i] - inertia[i] > low:
                low = a[i] - inertia[i]
        for i in [int(x) for x in mi]:
            s.check(s.close(a[i] - inertia[i], low, 1e-6), 'point farthest below the line', info=f'{mi}')
        s.check(len(mi) > 0 and len(d) == n, 'a point is found')
    return Task(f'elbow[{numi}]', harness, functions=[f'{W}.run_elbow'], witnesses=3, bounds=f'{numi - 1} numbers of clusters, any inertias')


def heights(n, k):
    def harness(s):
        m, w = make(s, NUM_PCS=k)
        pc = [[s.real(f'pc[{t},{i}]', np=True) for i in range(k)] for t in range(n)]
        eof = [[[0.5 * (i + 1) - x, 2.0 * x - i + 0.25] for x in range(2)] for i in range(k)]
        out = s.call(w.reconstruct_heights, np.array(eof), s.table(pc), (n, 4))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        for t in range(n):
            for p in range(4):
                s.check_same(out[t][p], total([pc[t][i] * eof[i][p // 2][p % 2] for i in range(k)]), 'height from the patterns', info=f'day {t}, point {p}')
    return Task(f'heights[{n},{k}]', harness, functions=[f'{W}.reconstruct_heights'], bounds=f'{n} days, {k} patterns, any coefficients')


def tasks(tier):
    q = tier == 'quick'
    out = [clusters(2, 1, 3), clusters(2, 2, 2), clusters(3, 1, 4), clusters(3, 2, 2), clusters(4, 1, 3)]
    out += [frequency(2, 1, 4, 2), frequency(2, 2, 3, 2), frequency(3, 1, 3, 3), frequency(3, 1, 4, 1), frequency(2, 1, 5, 3)]
    out += [reorder(2, 1, 3), reorder(2, 2, 1), reorder(3, 1, 2), correlate(2), correlate(3), elbow(4), elbow(5), heights(2, 1), heights(2, 3)]
    if not q:
        out += [clusters(3, 1, 5), frequency(3, 1, 5, 2), reorder(4, 1, 1), elbow(6)]
    return out
