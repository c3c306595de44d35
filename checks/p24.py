"""P24: vertical interpolation and the heights of pressure levels."""
import xarray as xr
from checks.common import *
from symx import explore as X
from symx import fn, npx

ASSUMPTIONS = [REALS]
V = 'metcalcpy.vertical_interp'


def array(s, data, dims, coords, units=None):
    data = np.array(data, dtype=object) if s.symbolic else np.array(data, dtype=float)
    return xr.DataArray(data, dims=dims, coords=coords, attrs={'units': units} if units else {})


def interp(z, f, eta):
    """Linear interpolation between surfaces z; nearest value outside; missing surfaces are below the ground."""
    ok = [k for k in range(len(z)) if not fn.isnan(z[k])]
    if not ok or len(ok) < len(z) and eta < z[ok[0]]:
        return np.float64('nan')
    if eta < z[0]:
        return f[0]
    for k in range(1, len(z)):
        if k - 1 in ok and z[k - 1] <= eta and eta < z[k]:
            if eta == z[k - 1]:
                return f[k - 1]
            w = (eta - z[k - 1]) / (z[k] - z[k - 1])
            return f[k - 1] * (1 - w) + f[k] * w
    return f[-1]


def levels(n, pts, etas, order, zunit='m', eunit='m', factor=1, nanf=False, nanz=False):
    def harness(s):
        m = s.module(V)
        lev = list(np.arange(n) * 100.0)
        pt = list(range(pts))
        z = [[s.real(f'z[{k},{j}]', np=True) for j in pt] for k in range(n)]
        f = [[s.real(f'f[{k},{j}]', nan=nanf, np=True) for j in pt] for k in range(n)]
        for j in pt:
            for k in range(1, n):
                s.assume(z[k - 1][j] < z[k][j])
        if nanz:
            # surfaces below the ground
            for j in pt:
                for k in range(pick(s, f'below[{j}]', range(n))):
                    z[k][j] = np.float64('nan')
        if order == 'ly':
            mk = lambda d, u: array(s, d, ('lev0', 'y'), {'lev0': lev, 'y': pt}, u)
            at = lambda o, i, j: o.values[i, j]
        else:
            mk = lambda d, u: array(s, [list(r) for r in zip(*d)], ('y', 'lev0'), {'lev0': lev, 'y': pt}, u)
            at = lambda o, i, j: o.values[j, i]
        cfg = {'vertical_dim_name': 'lev0', 'vertical_levels': list(etas), 'vertical_level_units': eunit}
        out = s.call(m.vertical_interp, 'T', cfg, mk(z, zunit), mk(f, 'K'))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        out = out[0]
        s.check(list(out.lev.values) == list(etas) and list(out.y.values) == pt, 'levels and points of the result')
        for i, e in enumerate(etas):
            for j in pt:
                exp = interp([z[k][j] * factor for k in range(n)], [f[k][j] for k in range(n)], e)
                s.reached('missing' if not nanf and fn.isnan(exp) else 'value')
                s.check_same(at(out, i, j), exp, 'interpolated value', info=f'level {e}, point {j}')
    return Task(f'interp[{n} surfaces,{pts} points,{etas},{order},{zunit}->{eunit}{",nan" if nanf else ""}{",below ground" if nanz else ""}]', harness,
                functions=[f'{V}.vertical_interp'], expect=['value'], witnesses=4,
                bounds=f'{n} increasing surfaces at {pts} point(s), any heights, any {"or missing " if nanf else ""}field values, levels {etas}')


def uf(name, *args):
    from symx.core import SymReal, lift, ctx
    from symx.fn import P1
    return SymReal(ctx().apply(name, [lift(a).strip() for a in args], lambda v: [v > 0]), P1, None, True)


def cellwise(f, like, *arrays):
    out = np.empty(like.shape, dtype=object)
    for i in np.ndindex(like.shape):
        out[i] = f(*[np.asarray(a.values)[i] for a in arrays])
    return xr.DataArray(out, dims=like.dims, coords=like.coords)


class Calc:
    """Moist thermodynamics as uninterpreted positive functions."""
    @staticmethod
    def mixing_ratio_from_relative_humidity(p, T, rh):
        return cellwise(lambda *a: uf('mixing_ratio', *a), T, p, T, rh)

    @staticmethod
    def virtual_temperature(T, w):
        return cellwise(lambda *a: uf('virtual_temperature', *a), T, T, w)


def virtual(s, p, T, rh):
    if s.symbolic:
        return uf('virtual_temperature', T, uf('mixing_ratio', p, T, rh))
    from metpy import calc
    from metpy.units import units
    return float(calc.virtual_temperature(units.Quantity(T, 'K'), calc.mixing_ratio_from_relative_humidity(
        units.Quantity(p, 'hPa'), units.Quantity(T, 'K'), units.Quantity(rh, 'percent'))).to('K').magnitude)


def heights(lev, punit, factor):
    def harness(s):
        m = s.module(V)
        n = len(lev)
        if s.symbolic:
            m.calc = Calc
        from metpy.constants import earth_gravity, dry_air_gas_constant
        g, rg = earth_gravity.to_base_units().magnitude, (dry_air_gas_constant / earth_gravity).to_base_units().magnitude
        T = [np.float64(280 - 3 * k) for k in range(n)]
        RH = [np.float64(50 + k) for k in range(n)]
        ps = s.real('surface pressure', lo=1, np=True)
        gp = s.real('surface geopotential', np=True)
        c = {'lev0': xr.DataArray(lev, dims='lev0', attrs={'units': 'hPa'}), 'y': [0]}
        mk = lambda d, u: array(s, [[x] for x in d], ('lev0', 'y'), c, u)
        m1 = lambda x, u: array(s, [x], ('y',), {'y': [0]}, u)
        out = s.call(m.height_from_pressure, {'vertical_dim_name': 'lev0'}, m1(gp, 'm**2 s**-2'), m1(ps, punit), mk(T, 'K'), mk(RH, 'percent'))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        p = ps * factor
        z = np.float64('nan')
        for k in range(n):
            if lev[k] >= p:
                z = np.float64('nan')
            else:
                s.reached('above')
                start = fn.isnan(z)
                z = (gp / g if start else z) + rg * virtual(s, lev[k], T[k], RH[k]) * (fn.log(p / lev[k]) if start and (k == 0 or p != lev[k - 1]) else np.log(lev[k - 1] / lev[k]))
            s.check_same(out.values[k, 0], z, 'height', info=f'level {lev[k]}')
    return Task(f'heights[{lev},{punit}]', harness, functions=[f'{V}.height_from_pressure'], expect=['above'], witnesses=4,
                bounds=f'pressure levels {lev} hPa, any surface pressure and geopotential, fixed temperatures')


def tasks(tier):
    out = [levels(1, 1, [5.0], 'ly'), levels(2, 1, [5.0], 'ly'), levels(3, 1, [5.0], 'ly'), levels(3, 1, [5.0, 7.0], 'yl'), levels(2, 2, [5.0], 'ly'),
           levels(2, 1, [5.0], 'ly', 'm', 'km', Fraction(1, 1000)), levels(2, 1, [5.0], 'ly', 'hPa', 'Pa', 100),
           levels(3, 1, [5.0], 'yl', nanz=True), levels(4, 1, [5.0], 'ly'), levels(2, 1, [5.0, 3.0], 'ly', nanf=True)]
    out += [heights([1000.0, 900.0, 800.0], 'Pa', Fraction(1, 100)), heights([1000.0], 'hPa', 1), heights([850.0, 500.0], 'hPa', 1)]
    return out
