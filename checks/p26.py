"""P26: longitude conversions and directional means."""
import xarray as xr
from checks.common import *
from symx import explore as X
from symx import fn, pdx

ASSUMPTIONS = [REALS]
U, D = 'metcalcpy.util.utils', 'metcalcpy.pre_processing.directional_means'
FLIP = ['metcalcpy.contributed.spacetime.spacetime_utils', 'metcalcpy.contributed.tropical_diagnostics.utils']


def wrap(x, lo, span):
    """The value in [lo, lo + span) that differs from x by a multiple of span."""
    while x < lo:
        x = x + span
    while x >= lo + span:
        x = x - span
    return x


def order(v):
    """Positions of v in ascending order."""
    pos = []
    for i, x in enumerate(v):
        k = len(pos)
        while k > 0 and v[pos[k - 1]] > x:
            k -= 1
        pos.insert(k, i)
    return pos


def lons(s, n, lo, hi):
    v = [s.real(f'lon[{i}]', lo=lo, hi=hi) for i in range(n)]
    return v


def to180(n, kind):
    def harness(s):
        m = s.module(U)
        v = lons(s, n, 0, 360)
        arg = s.vector(v) if kind == 'array' else list(v)
        out = s.call(m.convert_lon_360_to_180, arg)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        w = [wrap(x, -180, 360) for x in v]
        s.check(len(out) == n, 'number of longitudes')
        for i, k in enumerate(order(w)):
            s.reached('west' if w[k] < 0 else 'east')
            s.check_same(out[i], w[k], 'converted longitude')
        if kind == 'array':
            for i in range(n):
                s.check_same(arg[i], v[i], 'the input is left alone')
    return Task(f'360to180[{n},{kind}]', harness, functions=[f'{U}.convert_lon_360_to_180'], expect=['west', 'east'], max_paths=4000,
                bounds=f'{n} longitudes in [0, 360]')


def indices(n, start, span, kind='array'):
    def harness(s):
        m = s.module(U)
        v = lons(s, n, -180, 360)
        w = [wrap(x, start, span) for x in v]
        for i in range(n):
            for j in range(i):
                s.assume(w[i] != w[j])
        out = s.call(m.convert_lons_indices, s.vector(v) if kind == 'array' else list(v), start, span)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        got, pos = out
        for i, k in enumerate(order(w)):
            s.reached('moved' if k != i else 'in place')
            s.check(int(pos[i]) == k, 'position in the input', info=f'{int(pos[i])}, expected {k}')
            s.check_same(got[i], w[k], 'converted longitude')
    return Task(f'indices[{n},{start},{span},{kind}]', harness, functions=[f'{U}.convert_lons_indices'], expect=['moved', 'in place'] if n > 1 else ['in place'], max_paths=4000,
                bounds=f'{n} different longitudes in [-180, 360], range of {span} from {start}')


def flip(mod, name, n, west, sym):
    """west: how many longitudes of the input lie in the western half"""
    def harness(s):
        m = s.module(mod)
        east = [10.0 + 25 * i for i in range(n - west)]
        if not west:
            lon = east
        elif name == 'negative':
            lon = [-150.0 + 20 * i for i in range(west)] + east
        else:
            lon = east + [180.0 + 20 * i for i in range(west)]
        vals = [[[s.real(f'd[{t},{y},{x}]', nan=True) for x in range(n)] for y in range(2)] for t in range(1)]
        data = xr.DataArray(np.array(vals, dtype=object if s.symbolic else float), dims=('time', 'lat', 'lon'), coords={'time': [0], 'lat': [-5.0, 5.0], 'lon': lon})
        arg = data['lon'] if sym else xr.DataArray(np.array(lon), dims='lon')
        out = s.call(m.lonFlip, data, arg)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        neg = any(x < 0 for x in lon)
        w = [wrap(x, 0 if neg else -180, 360) for x in lon]
        s.check(list(out['lon'].values) == [w[k] for k in order(w)], 'longitudes of the result', info=f"{list(out['lon'].values)}")
        s.check(list(out['lat'].values) == [-5.0, 5.0], 'latitudes of the result')
        s.check(list(data['lon'].values) == lon, 'the input is left alone')
        for y in range(2):
            for i, k in enumerate(order(w)):
                s.check_same(out.values[0, y, i], vals[0][y][k], 'value at its longitude')
    return Task(f'lonFlip[{mod.split(".")[2]},{name},{n} longitudes,{west} west,{"coordinate" if sym else "array"}]', harness, functions=[f'{mod}.lonFlip'],
                bounds=f'{n} longitudes of which {west} in the western half, any values')


def zonal(dim, nan):
    def harness(s):
        m = s.module(D)
        if s.symbolic:
            pdx.install_xr()
        v = [[s.real(f'd[{y},{x}]', nan=nan) for x in range(3)] for y in range(2)]
        data = xr.DataArray(np.array(v, dtype=object if s.symbolic else float), dims=('latitude', dim), coords={'latitude': [10.0, 20.0], dim: [0.0, 120.0, 240.0]})
        out = s.call(m.zonal_mean, data) if dim == 'longitude' else s.call(m.zonal_mean, data, dim)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(out.dims == ('latitude',), 'remaining dimension')
        for y in range(2):
            ok = [x for x in v[y] if not fn.isnan(x)]
            t = 0
            for x in ok:
                t = t + x
            s.check_same(out.values[y], t / len(ok) if ok else np.float64('nan'), 'zonal mean')
    return Task(f'zonal[{dim}{",nan" if nan else ""}]', harness, functions=[f'{D}.zonal_mean'], bounds='2 latitudes, 3 longitudes, any values' + (' or missing' if nan else ''))


def meridional(lats, lo, hi, dim, nan):
    def harness(s):
        m = s.module(D)
        v = [[s.real(f'd[{y},{x}]', nan=nan) for x in range(2)] for y in range(len(lats))]
        data = xr.DataArray(np.array(v, dtype=object if s.symbolic else float), dims=(dim, 'longitude'), coords={dim: lats, 'longitude': [0.0, 180.0]})
        out = s.call(m.meridional_mean, data, lo, hi) if dim == 'latitude' else s.call(m.meridional_mean, data, lo, hi, dim)
        if lo >= hi:
            s.reached('refused')
            s.check(isinstance(out, X.Raised), 'an empty band is refused', info=f'{out!r}')
            return
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.reached('mean')
        for x in range(2):
            t = w = 0
            some = False
            for y, lat in enumerate(lats):
                if lo <= lat <= hi and not fn.isnan(v[y][x]):
                    c = np.cos(np.deg2rad(lat))
                    t, w, some = t + c * v[y][x], w + c, True
            s.check_same(out.values[x], t / w if some else np.float64('nan'), 'weighted mean over the band', info=f'longitude {x}')
    return Task(f'meridional[{lats},{lo},{hi},{dim}{",nan" if nan else ""}]', harness, functions=[f'{D}.meridional_mean'], expect=['refused' if lo >= hi else 'mean'],
                bounds=f'latitudes {lats}, band {lo} to {hi}, 2 longitudes, any values' + (' or missing' if nan else ''))


def tasks(tier):
    q = tier == 'quick'
    out = [to180(1, 'list'), to180(2, 'array'), to180(3, 'list')]
    out += [indices(1, -180, 360), indices(2, -180, 360), indices(2, 0, 360), indices(2, 30, 360), indices(2, -90, 360, 'list'), indices(2, -200, 360), indices(2, 200, 360)]
    for mod in FLIP:
        for n, w in ((4, 2), (3, 1), (3, 2), (4, 1)) + (() if q else ((5, 2), (6, 3))):
            out += [flip(mod, 'negative', n, w, w % 2 == 0), flip(mod, '0-360', n, w, w % 2 == 1)]
        out += [flip(mod, '0-360', 3, 0, True)]
    out += [zonal('longitude', False), zonal('lon', True)]
    L = [80.0, 60.0, 45.0, -10.0, -70.0]
    out += [meridional(L, 60, 90, 'latitude', False), meridional(L, 40, 70, 'latitude', False), meridional(L, -80, 50, 'lat', True), meridional([-70.0, 10.0, 30.0], -90, 0, 'lat', False),
            meridional(L, -10, 45, 'latitude', False), meridional(L, 50, 50, 'latitude', False), meridional(L, 60, 50, 'latitude', False)]
    return out
