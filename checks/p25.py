"""P25: forecast difficulty index and piecewise linear envelopes."""
from checks.common import *
from symx import explore as X
from symx import fn, libx

ASSUMPTIONS = [REALS, 'numpy.interp and the masking of numpy.ma are replaced by their definitions in the symbolic run']
D, L = 'metcalcpy.calc_difficulty_index', 'metcalcpy.piecewise_linear'
EPS = float(np.finfo(np.float32).eps)


def piecewise(xs, ys, left, right, x):
    if fn.isnan(x):
        return np.float64('nan')
    if x < xs[0]:
        return left
    if x > xs[-1]:
        return right
    for i in range(len(xs) - 1):
        if x == xs[i]:
            return ys[i]
        if x < xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def knots(n, m, shape, sym):
    def harness(s):
        mod = s.module(L)
        if sym:
            xs = [s.real(f'x[{i}]') for i in range(n)]
            ys = [s.real(f'y[{i}]') for i in range(m)]
            left, right = s.real('left', nan=True), s.real('right', nan=True)
        else:
            xs, ys, left, right = [3.0, 9.0, 12.0, 21.0][:n], [0.0, 1.5, 1.5, 0.25][:m], 0.5, -1.0
        obj = s.call(mod.PiecewiseLinear, xs, ys, 'feet', left, right)
        bad = len(xs) < 2 or any(bool(b < a) for a, b in zip(xs, xs[1:])) or n != m
        s.check(isinstance(obj, X.Raised) == bool(bad), 'invalid knots are refused', info=f'{obj!r}')
        if isinstance(obj, X.Raised) or bad:
            s.reached('refused')
            return
        for i in range(n - 1):
            s.assume(xs[i] < xs[i + 1])
        s.reached('accepted')
        v = s.real('v', nan=True)
        w = np.float64(10) if not sym else v
        arg = {'scalar': v, 'list': [v, w], '2d': [[v], [w]]}[shape]
        if shape != 'scalar':
            arg = s.vector(arg) if shape == 'list' else s.table(arg)
        got = s.call(obj.values, arg)
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        cells = [np.asarray(got, dtype=object).ravel()[k] for k in range(1 if shape == 'scalar' else 2)]
        s.check(np.shape(got) == np.shape(arg), 'shape of the result')
        for g, a in zip(cells, [v, w]):
            s.check_same(g, piecewise(xs, ys, left, right, a), 'value')
        top = s.call(obj.get_ymax)
        e = ys[0]
        for y in ys[1:]:
            e = y if y > e else e
        s.check_same(top, e, 'maximum')
    return Task(f'piecewise[{n} knots,{m} values,{shape}{",symbolic" if sym else ""}]', harness, functions=[f'{L}.PiecewiseLinear', f'{L}.PiecewiseLinear.values'],
                expect=['refused'] if n != m or n < 2 else ['accepted', 'refused'] if sym else ['accepted'],
                bounds=f'{n} knots and {m} values ' + ('of any size' if sym else 'of the default envelope') + ', any argument')


def index(ni, nj, members, mode, ref, envelope):
    """mode: array, scalar (mean), fixed (means as numbers)"""
    def harness(s):
        mod = s.module(D)
        sg = [[s.real(f'sigma[{i},{j}]') for j in range(nj)] for i in range(ni)]
        fixed = [[np.float64(5 + 3 * i + 4 * j) for j in range(nj)] for i in range(ni)]
        if mode == 'scalar':
            one = s.real('mu', lo=0)
            s.assume(one > 0)
            mu = [[one] * nj] * ni
            arg = one
        else:
            mu = fixed if mode == 'fixed' else [[s.real(f'mu[{i},{j}]', lo=0) for j in range(nj)] for i in range(ni)]
            if mode != 'fixed':
                for r in mu:
                    for x in r:
                        s.assume(x > 0)
            arg = s.table(mu)
        fld = [[[s.real(f'f[{i},{j},{k}]') for k in range(members)] for j in range(nj)] for i in range(ni)]
        a3 = np.empty((ni, nj, members), dtype=object if s.symbolic else float)
        for i in range(ni):
            for j in range(nj):
                for k in range(members):
                    a3[i, j, k] = fld[i][j][k]
        if s.symbolic:
            from symx import npx
            a3 = npx.asobj(a3)
        A = None
        xs, ys, left, right = [3.0, 9.0, 12.0, 21.0], [0.0, 1.5, 1.5, 0.0], 0.0, 0.0
        if envelope:
            xs, ys, left, right = [4.0, 6.0, 30.0], [0.5, 1.0, 2.0], 0.25, 3.0
            A = s.module(L).PiecewiseLinear(xs, ys, left=left, right=right)
        thr = 9.0
        kw = {} if ref is None else {'sigma_over_mu_ref': ref}
        got = s.call(mod.forecast_difficulty, s.table(sg), arg, thr, a3, A, **kw)
        bad = any(bool(x < EPS) for r in sg for x in r)
        s.check(isinstance(got, X.Raised) == bad, 'spreads that are not positive are refused', info=f'{got!r}')
        if bad or isinstance(got, X.Raised):
            s.reached('refused')
            return
        s.reached('value')
        top = ref or EPS
        for i in range(ni):
            for j in range(nj):
                q = sg[i][j] / mu[i][j]
                top = q if q > top else top
        for i in range(ni):
            for j in range(nj):
                under = len([1 for x in fld[i][j] if bool(x < thr)])
                t = Fraction(1, 2) - Fraction(under, members)
                exp = (sg[i][j] / mu[i][j] / top + (1 - abs(t))) / 2 * piecewise(xs, ys, left, right, mu[i][j])
                s.check_same(got[i, j], exp if s.symbolic else float(exp), 'difficulty index', info=f'cell {i},{j}')
    return Task(f'index[{ni}x{nj},{members} members,{mode} mean,ref={ref},{"own" if envelope else "default"} envelope]', harness, max_paths=6000,
                functions=[f'{D}.forecast_difficulty', f'{D}._difficulty_index', f'{D}._input_check', f'{L}.PiecewiseLinear.values'], expect=['value', 'refused'],
                bounds=f'{ni}x{nj} grid, {members} members, any spreads, {"fixed" if mode == "fixed" else "any positive"} means and any member values, threshold 9')


def tasks(tier):
    out = [knots(n, m, sh, True) for n, m, sh in ((1, 1, 'scalar'), (2, 3, 'scalar'), (2, 2, 'scalar'), (3, 3, 'scalar'), (2, 2, 'list'))]
    out += [knots(4, 4, 'list', False), knots(4, 4, '2d', False), knots(4, 3, 'list', False)]
    out += [index(1, 1, 1, 'array', None, False), index(1, 1, 3, 'fixed', None, False), index(1, 2, 1, 'fixed', None, True), index(2, 1, 1, 'fixed', 0.25, False),
            index(1, 1, 2, 'scalar', 0.5, True), index(1, 2, 2, 'fixed', 0.25, False)]
    return out
