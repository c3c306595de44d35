"""P30: projection of tropical fields onto the MJO patterns."""
import math
import warnings
import xarray as xr
from checks.common import *
from symx import explore as X
from symx import fn, libx, pdx

ASSUMPTIONS = [REALS, 'least squares with a concrete pattern matrix are replaced by their definition (the normal equations) in the symbolic run',
               'the spectral filter of the OMI index is outside the bounds']
M = 'metcalcpy.contributed.rmm_omi.compute_mjo_indices'
NAN = np.float64('nan')


def field(s, v, dims, **coords):
    if s.symbolic:
        pdx.install_xr()
    return xr.DataArray(np.array(v, dtype=object if s.symbolic else float), dims=dims, coords=coords)


def times(n, step):
    return np.datetime64('2019-12-30') + np.arange(n) * np.timedelta64(int(step * 24), 'h')


def mean(v):
    ok = [x for x in v if not fn.isnan(x)]
    return total(ok) / len(ok) if ok else NAN


def without_previous(v, step):
    """Each value minus the mean of it and of the values of the 120 days before."""
    k = int(120 / step)
    return [x - mean(v[max(0, i - k):i + 1]) for i, x in enumerate(v)]


def project(v, e1, e2):
    """Coefficients of the least-squares fit of v by two patterns."""
    num = Fraction
    a, b, c = (sum(num(x) * num(y) for x, y in zip(p, q)) for p, q in ((e1, e1), (e1, e2), (e2, e2)))
    p, q = 0, 0
    for i, x in enumerate(v):
        w1 = (num(e1[i]) * c - num(e2[i]) * b) / (a * c - b * b)
        w2 = (num(e2[i]) * a - num(e1[i]) * b) / (a * c - b * b)
        p = p + (w1 if not isinstance(x, float) else float(w1)) * x
        q = q + (w2 if not isinstance(x, float) else float(w2)) * x
    return p, q


def running(n, step, nx, nan, where=None):
    def harness(s):
        m = s.module(M)
        v = [[s.real(f'v[{t},{x}]', nan=nan, np=True) if where is None or t in where else np.float64(t * 7 % 5) for x in range(nx)] for t in range(n)]
        data = field(s, v, ('time', 'lon'), time=times(n, step), lon=list(range(nx)))
        out = s.call(m.rem_120day_mean, data, times(n, step))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(out.shape == (n, nx), 'shape')
        for x in range(nx):
            exp = without_previous([v[t][x] for t in range(n)], step)
            for t in (range(n) if where is None else [0, n // 2] + list(range(n - 6, n))):
                s.check_same(out.values[t, x], exp[t], 'value without the mean of the previous 120 days', info=f'time {t}, place {x}')
                s.check_same(data.values[t, x], v[t][x], 'the input is left unchanged')
    return Task(f'running[{n} times every {step} days,{nx}{",nan" if nan else ""}]', harness, functions=[f'{M}.rem_120day_mean'], witnesses=4,
                bounds=f'{n} times every {step} days, {nx} places, any values' + (f' at the times {where}' if where else '') + (' or missing' if nan else ''))


def regress(n, nan=False):
    def harness(s):
        m = s.module(M)
        e1, e2 = [0.5, -0.25, 1.0, 2.0][:n], [1.0, 0.75, -0.5, 0.125][:n]
        v = [s.real(f'v[{i}]', np=True) for i in range(n)]
        out = s.call(m.regress_vector_onto_eofs, s.vector(v), np.array(e1), np.array(e2))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        exp = project(v, e1, e2)
        s.check_same(out[0], exp[0], 'first coefficient')
        s.check_same(out[1], exp[1], 'second coefficient')
    return Task(f'regress[{n}]', harness, functions=[f'{M}.regress_vector_onto_eofs'], bounds=f'patterns of {n} points, any vector')


def daily(days, nlat, nlon):
    """Patterns of the day of the year."""
    def harness(s):
        m = s.module(M)
        time = np.array([np.datetime64(d) for d in days])
        lat, lon = [-2.5 + 5 * i for i in range(nlat)], [10.0 * i for i in range(nlon)]
        v = [[[s.real(f'v[{t},{y},{x}]', np=True) for x in range(nlon)] for y in range(nlat)] for t in range(len(days))]
        p = [np.array([[[((d * 7 + y * 3 + x * 5 + k * (y + 2 * x + d)) % 11) - 4.5 for x in range(nlon)] for y in range(nlat)] for d in range(366)]) for k in (1, 4)]
        c = {'day': np.arange(366), 'lat': lat, 'lon': lon}
        e = [xr.DataArray(a, dims=('day', 'lat', 'lon'), coords=c) for a in p]
        out = s.call(m.regress_3dim_data_onto_eofs, field(s, v, ('time', 'lat', 'lon'), time=time, lat=lat, lon=lon), time, *e)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        for t, d in enumerate(days):
            doy = int((np.datetime64(d) - np.datetime64(d[:4] + '-01-01')) / np.timedelta64(1, 'D'))
            exp = project([v[t][y][x] for y in range(nlat) for x in range(nlon)], list(p[0][doy].ravel()), list(p[1][doy].ravel()))
            s.check_same(out[0][t], exp[0], 'first coefficient of the day', info=d)
            s.check_same(out[1][t], exp[1], 'second coefficient of the day', info=d)
    return Task(f'daily[{days},{nlat}x{nlon}]', harness, functions=[f'{M}.regress_3dim_data_onto_eofs', f'{M}.regress_vector_onto_eofs'], witnesses=4,
                bounds=f'days {days}, {nlat}x{nlon} grid, any values')


def other_grid():
    def harness(s):
        m = s.module(M)
        t = times(2, 1)
        lon = [0.0, 10.0]
        c = {'lat': [0.0], 'lon': lon}
        which = pick(s, 'different', ['lat', 'lon', 'none'])
        e = xr.DataArray(np.ones((366, 1, 2)) * np.array([1.0, 2.0]), dims=('day', 'lat', 'lon'), coords=c)
        f = xr.DataArray(np.ones((366, 1, 2)) * np.array([1.0, -2.0]), dims=('day', 'lat', 'lon'), coords=c)
        v = [[[s.real(f'v[{i},{x}]', np=True) for x in range(2)]] for i in range(2)]
        d = field(s, v, ('time', 'lat', 'lon'), time=t, lat=[5.0] if which == 'lat' else [0.0], lon=[0.0, 20.0] if which == 'lon' else lon)
        out = s.call(m.regress_3dim_data_onto_eofs, d, t, e, f)
        s.check(isinstance(out, X.Raised) == (which != 'none'), 'different grids are refused', info=f'{which} {out!r}')
        s.reached(which)
    return Task('grids', harness, functions=[f'{M}.regress_3dim_data_onto_eofs'], expect=['lat', 'lon', 'none'], bounds='2 days, 2 points')


def rmm(n, step, nx, badlon=False):
    def harness(s):
        m = s.module(M)
        lon = [30.0 * i for i in range(nx)]
        t = times(n, step)
        v = [[[s.real(f'{q}[{i},{x}]', np=True) for x in range(nx)] for i in range(n)] for q in ('olr', 'u850', 'u200')]
        which = pick(s, 'different grid', ['none', 0, 1, 2]) if badlon else 'none'
        d = [field(s, v[k], ('time', 'lon'), time=t, lon=lon if which != k else [x + 1 for x in lon]) for k in range(3)]
        e1 = [[0.5, -0.25, 1.0][:nx], [1.5, 0.75, -1.0][:nx], [-0.5, 0.5, 2.0][:nx]]
        e2 = [[-1.0, 0.5, 0.25][:nx], [0.25, 1.25, 0.5][:nx], [1.0, -2.0, 0.75][:nx]]
        mk = lambda e: xr.DataArray(np.array(e), dims=('var', 'lon'), coords={'lon': lon})
        norm, pcn = [2.0, 4.0, 0.5], [8.0, 0.25]
        out = s.call(m.rmm, *d, t, 1, mk(e1), mk(e2), norm, pcn)
        s.check(isinstance(out, X.Raised) == (which != 'none'), 'fields on another grid are refused', info=f'{which} {out!r}')
        if which != 'none':
            s.reached('refused')
            return
        if isinstance(out, X.Raised):
            return
        s.reached('index')
        a = []
        for k in range(3):
            cols = [without_previous([v[k][i][x] for i in range(n)], step) for x in range(nx)]
            a.append([[cols[x][i] / Fraction(norm[k]) if s.symbolic else cols[x][i] / norm[k] for x in range(nx)] for i in range(n)])
        for i in range(n):
            row = a[0][i] + a[1][i] + a[2][i]
            exp = project(row, sum(e1, []), sum(e2, []))
            for k in range(2):
                s.check_same(np.asarray(out[k].values)[i], exp[k] / (Fraction(pcn[k]) if s.symbolic else pcn[k]), f'RMM{k + 1}', info=f'time {i}')
        s.check(all(list(o.time.values) == list(t) for o in out), 'times of the index')
    return Task(f'rmm[{n} times every {step} days,{nx}{",grids" if badlon else ""}]', harness, functions=[f'{M}.rmm', f'{M}.rem_120day_mean', f'{M}.regress_2dim_data_onto_eofs', f'{M}.regress_vector_onto_eofs'],
                expect=['index', 'refused'] if badlon else ['index'], witnesses=4, bounds=f'{n} times every {step} days, {nx} longitudes, any fields')


def variance(n, nx, nan):
    def harness(s):
        m = s.module(M)
        v = [[s.real(f'v[{t},{x}]', nan=nan, np=True) for x in range(nx)] for t in range(n)]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = s.call(m.zon_avg_variance, s.table(v))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        var = []
        for x in range(nx):
            ok = [v[t][x] for t in range(n) if not fn.isnan(v[t][x])]
            if ok:
                a = total(ok) / len(ok)
                var.append(total([(y - a) * (y - a) for y in ok]) / len(ok))
        s.check_same(out, total(var) / len(var) if var else NAN, 'zonal mean of the variance in time')
    return Task(f'variance[{n}x{nx}{",nan" if nan else ""}]', harness, functions=[f'{M}.zon_avg_variance'], bounds=f'{n} times, {nx} longitudes, any values' + (' or missing' if nan else ''))


def taper(n, w):
    def harness(s):
        m = s.module(M)
        v = [s.real(f'v[{i}]', np=True) for i in range(n)]
        out = s.call(m.taper_vector_to_zero, s.vector(list(v)), w)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        for i in range(n):
            e = v[i]
            for j in (i, n - 1 - i):
                if j < w:
                    e = e * 0.5 * (1 - math.cos(j * math.pi / w))
            s.check_same(out[i], e, 'tapered value', info=f'position {i}')
    return Task(f'taper[{n},{w}]', harness, functions=[f'{M}.taper_vector_to_zero'], bounds=f'{n} values, any, window of {w}')


def tasks(tier):
    q = tier == 'quick'
    out = [running(2, 1, 2, False), running(5, 40, 1, False), running(5, 60, 2, False), running(4, 120, 1, True), running(3, 200, 1, False), running(4, 60, 1, True), running(244, 0.5, 1, False, [0, 2, 4, 243]), running(124, 1, 1, False, [0, 2, 123])]
    out += [regress(2), regress(3), regress(4), other_grid(), daily(['2020-01-01', '2020-12-31'], 1, 3), daily(['2019-03-01', '2020-03-01'], 2, 2), daily(['2019-12-31', '2020-01-01'], 1, 2)]
    out += [rmm(3, 120, 2), rmm(5, 40, 1), rmm(2, 1, 3), rmm(2, 1, 2, True)]
    out += [variance(1, 1, False), variance(3, 1, False), variance(2, 2, False), variance(2, 2, True), variance(3, 1, True)]
    out += [taper(6, 2), taper(5, 3), taper(4, 4), taper(3, 1)]
    if not q:
        out += [running(8, 30, 2, False), running(5, 60, 1, True), rmm(6, 40, 2), variance(4, 2, True)]
    return out
