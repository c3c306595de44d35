"""P33: waves around a latitude circle."""
import math
import xarray as xr
from checks.common import *
from symx import explore as X
from symx import fn, libx, pdx, cplx, core

ASSUMPTIONS = [REALS, 'the Fourier transforms of scipy are replaced by their definition in the symbolic run', 'the scipy variant of the transforms (the default); the xrft variant is outside the bounds',
               'amplitude, phase and covariance of the shortest wave of an even number of longitudes are not claimed']
M = 'metcalcpy.pre_processing.waves'


def field(s, n, dims, other, name='x', limit=None):
    """A field over n longitudes and possibly another dimension; returns the array and the rows of values."""
    if s.symbolic:
        pdx.install_xr()
    rows = [[s.real(f'{name}[{r},{i}]', np=True, lo=-limit if limit else None, hi=limit) for i in range(n)] for r in range(other)]
    lon = [15.0 + 360.0 / n * i for i in range(n)]
    a = np.array(rows, dtype=object if s.symbolic else float)
    if len(dims) == 1:
        return xr.DataArray(a[0], dims=dims, coords={dims[0]: lon}), rows
    if dims[0] == 'lev':
        return xr.DataArray(a, dims=dims, coords={dims[1]: lon, 'lev': list(range(other))}), rows
    return xr.DataArray(a.T, dims=dims, coords={dims[0]: lon, 'lev': list(range(other))}), rows


def coefficient(v, k):
    n = len(v)
    re, im = 0, 0
    for j, x in enumerate(v):
        c, d = cplx.root(j * k, n)
        re = re + (x * c if core.is_sym(x) else float(c) * x)
        im = im - (x * d if core.is_sym(x) else float(d) * x)
    return re, im


def at(a, r, dims, i):
    """Value of row r at position i of the wave (or longitude) dimension."""
    v = a.values if hasattr(a, 'values') else a
    return v[i] if len(dims) == 1 else v[r][i] if dims[0] == 'lev' else v[i][r]


def run(s, f, dims, *a, waves):
    k = {} if dims[-1] == 'longitude' or dims[0] == 'longitude' else {'dimvar': 'lon'}
    return s.call(f, *a, waves=waves, **k)


def coeffs(n, dims, other, waves):
    def harness(s):
        m = s.module(M)
        d, rows = field(s, n, dims, other)
        out = run(s, m.zonal_wave_coeffs, dims, d, waves=waves)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        ks = list(range(n // 2 + 1)) if waves is None else waves
        s.check(list(out.lon_wavenum.values) == ks, 'wavenumbers', info=f'{out.lon_wavenum.values}')
        for r in range(other):
            for i, k in enumerate(ks):
                z, e = at(out, r, dims, i), coefficient(rows[r], k)
                s.check_same(z.real, e[0], 'real part of the coefficient', info=f'wave {k}')
                s.check_same(z.imag, e[1], 'imaginary part of the coefficient', info=f'wave {k}')
    return Task(f'coeffs[{n},{dims},{waves}]', harness, functions=[f'{M}.zonal_wave_coeffs', f'{M}._zonal_wave_coeffs_scipy'], bounds=f'{n} longitudes, dimensions {dims}, waves {waves}, any values')


def amplitude(n, dims, other, waves, deg):
    def harness(s):
        m = s.module(M)
        d, rows = field(s, n, dims, other)
        k = {} if 'longitude' in dims else {'dimvar': 'lon'}
        out = s.call(m.zonal_wave_ampl_phase, d, waves=waves, phase_deg=deg, **k)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        ks = list(range(n // 2 + 1)) if waves is None else waves
        s.check(all(isinstance(o, xr.DataArray) and list(o.lon_wavenum.values) == ks for o in out), 'labelled arrays', info=f'{[type(o).__name__ for o in out]}')
        for r in range(other):
            for i, q in enumerate(ks):
                if 2 * q == n:
                    continue
                a, b = coefficient(rows[r], q)
                s.check_same(at(out[0], r, dims, i), sqrt(a * a + b * b) * (1 if q == 0 else 2) / n, 'amplitude', info=f'wave {q}')
                p = fn.arctan2(b, a) if s.symbolic else math.atan2(b, a)
                if deg:
                    p = fn.degrees(p) if s.symbolic else math.degrees(p)
                s.check_same(at(out[1], r, dims, i), p, 'phase', info=f'wave {q}')
    return Task(f'amplitude[{n},{dims},{waves},{deg}]', harness, functions=[f'{M}.zonal_wave_ampl_phase', f'{M}.zonal_wave_coeffs'], bounds=f'{n} longitudes, waves {waves}, any values')


def contributions(n, dims, other, waves):
    def harness(s):
        m = s.module(M)
        d, rows = field(s, n, dims, other, limit=1000 if waves is None else None)
        out = run(s, m.zonal_wave_contributions, dims, d, waves=waves)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        ks = list(range(n // 2 + 1)) if waves is None else waves
        s.check(list(out.lon_wavenum.values) == ks and out.dims == tuple(dims) + ('lon_wavenum',), 'wavenumbers', info=f'{out.lon_wavenum.values} {out.dims}')
        for r in range(other):
            for j in range(n):
                parts = []
                for i, k in enumerate(ks):
                    a, b = coefficient(rows[r], k)
                    c, e = cplx.root(j * k, n)
                    c, e = (c, e) if s.symbolic else (float(c), float(e))
                    parts.append((a * c - b * e) * (1 if k == 0 or 2 * k == n else 2) / n)
                    s.check_same(at(out, r, dims, j)[i], parts[-1], 'contribution of the wave', info=f'wave {k}, longitude {j}')
                if waves is None:
                    s.check(s.close(total([x for x in at(out, r, dims, j)]), rows[r][j], 1e-9), 'contributions add up to the field', info=f'longitude {j}')
    return Task(f'contributions[{n},{dims},{waves}]', harness, functions=[f'{M}.zonal_wave_contributions', f'{M}.zonal_wave_coeffs'], bounds=f'{n} longitudes, waves {waves}, any values')


def covariance(n, waves):
    def harness(s):
        m = s.module(M)
        a, x = field(s, n, ['longitude'], 1)
        b, y = field(s, n, ['longitude'], 1, 'y')
        out = s.call(m.zonal_wave_covariance, a, b, waves=waves)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        ks = list(range(n // 2 + 1)) if waves is None else waves
        for i, k in enumerate(ks):
            if 2 * k == n:
                continue
            p, q = coefficient(x[0], k), coefficient(y[0], k)
            s.check_same(out.values[i], (p[0] * q[0] + p[1] * q[1]) * (1 if k == 0 else 2) / n ** 2, 'covariance of the wave', info=f'wave {k}')
    return Task(f'covariance[{n},{waves}]', harness, functions=[f'{M}.zonal_wave_covariance', f'{M}.zonal_wave_coeffs'], bounds=f'{n} longitudes, waves {waves}, any values')


def refused():
    def harness(s):
        m = s.module(M)
        d, rows = field(s, 3, ['longitude'], 1)
        out = s.call(m.zonal_wave_coeffs, d, fftpkg='numpy')
        s.check(isinstance(out, X.Raised), 'unknown package refused')
    return Task('refused', harness, functions=[f'{M}.zonal_wave_coeffs'], bounds='3 longitudes')


def tasks(tier):
    q = tier == 'quick'
    L = ['longitude']
    out = [coeffs(3, L, 1, None), coeffs(4, ['lev', 'longitude'], 2, None), coeffs(6, ['longitude', 'lev'], 2, [1, 3]), coeffs(4, ['lon'], 1, [2, 0]), coeffs(5, L, 1, None)]
    out += [amplitude(3, L, 1, None, False), amplitude(4, ['lev', 'longitude'], 2, [1], True), amplitude(4, ['lon'], 1, None, False), amplitude(6, L, 1, [2, 1], True)]
    out += [contributions(3, L, 1, None), contributions(4, L, 1, None), contributions(4, ['lev', 'longitude'], 2, [1]), contributions(6, ['longitude', 'lev'], 2, [2, 1]), contributions(5, L, 1, [0, 2]), contributions(4, ['lon'], 1, [1, 2])]
    out += [covariance(3, None), covariance(4, None), covariance(4, [1]), covariance(5, [2, 1]), refused()]
    if not q:
        out += [contributions(8, L, 1, None), coeffs(8, L, 1, None), covariance(6, None)]
    return out
