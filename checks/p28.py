"""P28: radial and tangential winds of tropical cyclone grids."""
import math
import types
import xarray as xr
from checks.common import *
from symx import explore as X
from symx import fn

ASSUMPTIONS = [REALS, 'sine and cosine of the concrete azimuths are floating point; equality is claimed to 1e-5 of |u| + |v|']
M = 'metcalcpy.process_tcrmw'


def winds(az, nr, nl, nt, names):
    def harness(s):
        m = s.module(M)
        shape = (nr, len(az), nl, nt)
        u, v = np.empty(shape, dtype=object if s.symbolic else float), np.empty(shape, dtype=object if s.symbolic else float)
        for i in np.ndindex(shape):
            t = ','.join(map(str, i))
            u[i], v[i] = s.real(f'u[{t}]', np=True), s.real(f'v[{t}]', np=True)
        dims = ('range', 'azimuth', 'pressure', 'track_point')
        ds = xr.Dataset({names[0]: (dims, u), names[1]: (dims, v), 'TMP': (dims, np.zeros(shape))},
                        coords={'range': np.arange(nr), 'azimuth': np.array(az, dtype=float), 'pressure': np.arange(nl), 'track_point': np.arange(nt)})
        out = s.call(m.compute_wind_components, types.SimpleNamespace(T='TMP', u=names[0], v=names[1]), ds)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        rad, tan = np.asarray(out[0]), np.asarray(out[1])
        s.check(rad.shape == shape and tan.shape == shape, 'shape of the components')
        for i in np.ndindex(shape):
            th = math.radians(az[i[1]]) + math.pi / 2
            c, d = math.cos(th), math.sin(th)
            tol = (abs(u[i]) + abs(v[i])) * 1e-5 + (0 if s.symbolic else 1e-300)
            s.check(abs(rad[i] - (c * u[i] + d * v[i])) <= tol, 'radial wind', info=str(i))
            s.check(abs(tan[i] - (c * v[i] - d * u[i])) <= tol, 'tangential wind', info=str(i))
        s.reached('winds')
    return Task(f'winds[{az},{nr}x{nl}x{nt},{names[0]}]', harness, functions=[f'{M}.compute_wind_components'], expect=['winds'], max_paths=4000,
                bounds=f'{nr} ranges, azimuths {az}, {nl} levels, {nt} track points, any winds')


def tasks(tier):
    out = [winds([a, a + 180.0], 1, 1, 1, ('UGRD', 'VGRD')) for a in (0.0, 30.0, 77.5, 90.0, 135.0)]
    out += [winds([200.0, 300.0, 359.0], 1, 1, 1, ('U', 'V')), winds([10.0], 2, 1, 1, ('U', 'V')), winds([280.0], 1, 2, 1, ('U', 'V')), winds([120.0], 1, 1, 2, ('U', 'V'))]
    if tier != 'quick':
        out += [winds([float(a) for a in range(k, 360, 36)], 1, 1, 1, ('U', 'V')) for k in range(0, 36, 5)] + [winds([0.0, 270.0], 2, 2, 2, ('U', 'V'))]
    return out
