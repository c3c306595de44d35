"""P31: blocking: instantaneous blocked longitudes and groups of them."""
import os
import types
import math
from checks.common import *
from symx import explore as X
from symx import fn, libx, core

ASSUMPTIONS = [REALS, 'the reading of the netCDF files is replaced by a stand-in that hands out the (symbolic) fields',
               'run_Calc_Blocks (tracking of blocks in time) is outside the bounds']
M = 'metcalcpy.contributed.blocking_weather_regime.Blocking'
U = 'metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util'
B = f'{M}.BlockingCalculation'
NAN = np.float64('nan')


def make(s, **env):
    old = dict(os.environ)
    os.environ.update({f'T_{k}': str(v) for k, v in env.items()})
    try:
        m = s.module(M)
        return m, m.BlockingCalculation('T')
    finally:
        os.environ.clear()
        os.environ.update(old)


def mean(v):
    ok = [x for x in v if not fn.isnan(x)]
    return total(ok) / len(ok) if ok else NAN


def biggest(v):
    r = v[0]
    for x in v[1:]:
        if x > r:
            r = x
    return r


def index(a, c, deltas, half):
    """Blocking index of one longitude (values by row from the pole) for the central latitude row c."""
    r = []
    for d in deltas:
        k = c - d
        r.append(total(a[k - half:k + 1]) / (half + 1) - total(a[k:k + half + 1]) / (half + 1))
    return biggest(r)


def instant(ndays, cbl, limits, deltas, rows, through):
    """Blocked longitudes of each day, directly or through run_Calc_IBL."""
    nlon = len(cbl if not through else cbl[0])

    def harness(s):
        m, b = make(s, NORTH_SOUTH_LIMITS=limits, LAT_DELTA=','.join(map(str, deltas)))
        a = [[[s.real(f'z[{t},{y},{x}]', np=True) for x in range(nlon)] for y in range(rows)] for t in range(ndays)]
        lats, lons = np.arange(90, 90 - rows, -1), np.arange(nlon)
        if through:
            half = ndays // 2
            m.read_nc_met = lambda files, var, ns, ds: (s.table([a[:half], a[half:]]), lats, lons, 'times')
            out = s.call(b.run_Calc_IBL, np.array(cbl, float), ['f'] * ndays, 2, half)
            c = [mean([v for v in x if v == v]) for x in zip(*cbl)]
        else:
            out = s.call(b.run_mod_blocking1d, s.table(a), np.array(cbl, float), lats, lons, 'PH')
            c = cbl
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        if through:
            s.check(out[1] == 'times', 'times of the fields')
        for t in range(ndays):
            for x in range(nlon):
                e = index([a[t][y][x] for y in range(rows)], int(90 - c[x]), deltas, limits // 2)
                got = out[0][t // half][t % half][x] if through else out[0][t][x]
                s.check_same(got, 1 if e > 0 else 0, 'blocked longitude', info=f'day {t}, longitude {x}')
                if not through:
                    s.check_same(out[1][t][x], e, 'blocking index', info=f'day {t}, longitude {x}')
                s.reached('blocked' if e > 0 else 'free')
    return Task(f'instant[{ndays},{cbl},{limits},{deltas}{",seasons" if through else ""}]', harness, functions=[f'{B}.run_mod_blocking1d'] + [f'{B}.run_Calc_IBL'] * through, expect=['blocked', 'free'],
                witnesses=4, bounds=f'{ndays} days, central latitudes {cbl}, sector of {limits} degrees, shifts {deltas}, any heights')


def central(nyears, ndays, lats, where, smooth, nan):
    """Central blocking latitude: the latitude of largest weighted variability, smoothed along the circle."""
    def harness(s):
        m, b = make(s, SMOOTHING_PTS=smooth)
        n = len(lats)
        z = np.zeros((nyears, ndays, n, 360), dtype=object if s.symbolic else float)
        for y in range(nyears):
            for d in range(ndays):
                for k in range(n):
                    z[y, d, k, :] = float((-1) ** d * (k == n - 1))
        for y in range(nyears):
            for x in where:
                for k in range(n):
                    if ndays == 2:
                        a, r = s.real(f'mid[{y},{k},{x}]', np=True), s.real(f'half[{y},{k},{x}]', lo=0, np=True)
                        z[y, 0, k, x], z[y, 1, k, x] = a + r, a - r
        if nan:
            z[0, 0, 0, where[0]] = NAN
        m.read_nc_met = lambda files, var, ns, ds: (s.table(z.tolist()), np.array(lats, float), np.arange(360), 'times')
        out = s.call(b.run_CBL, ['f'], nyears, ndays)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        w = [math.sqrt(math.cos(la * math.pi / 180)) for la in lats]
        h = (smooth - 1) // 2
        for y in range(nyears):
            best = {}
            for x in where:
                sd = [(z[y, 0, k, x] - z[y, 1, k, x]) / 2 * w[k] for k in range(n)]
                if nan and y == 0 and x == where[0]:
                    sd[0] = 0
                i = 0
                for k in range(1, n):
                    s.assume(abs(sd[k] - sd[i]) > 1e-9)
                    if sd[k] > sd[i]:
                        i = k
                best[x] = lats[i]
                s.reached(f'latitude {i}')
            for x in sorted({(p + q) % 360 for p in where for q in range(-h - 1, h + 2)}):
                v = [best.get((x + q) % 360, lats[-1]) for q in range(-h, h + 1)]
                s.check_same(out[0][y][x], int(sum(v) / len(v)), 'smoothed central latitude', info=f'year {y}, longitude {x}')
    return Task(f'central[{nyears},{ndays},{lats},{where},{smooth}{",nan" if nan else ""}]', harness, functions=[f'{B}.run_CBL'], expect=[f'latitude {i}' for i in range(int(nan), len(lats))], witnesses=3,
                bounds=f'{nyears} seasons of {ndays} days, latitudes {lats}, longitudes {where} with any heights, window of {smooth}')


def groups(offset, pattern, crit, expect=('group', 'no group')):
    """Groups of blocked longitudes around the circle; '?' in the pattern: either."""
    def harness(s):
        m, b = make(s, IBL_IN_GIBL=crit)
        ring = [0] * 360
        for i, c in enumerate(pattern):
            ring[(offset + i) % 360] = s.integer(f'blocked[{i}]', 0, 1) if c == '?' else int(c == '#')
        out = s.call(b.run_Calc_GIBL, s.table([[ring]]), np.arange(360))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        on = [i for i in range(360) if ring[i] == 1]
        exp = [0] * 360
        cut = [j for j in range(len(on)) if (on[j] - on[j - 1]) % 360 > crit / 2] if len(on) > 1 else [0] * len(on)
        if on and not cut:
            exp = [1] * 360
        for a, j in enumerate(cut):
            last = on[cut[(a + 1) % len(cut)] - 1]
            n = (last - on[j]) % 360 + 1
            if n >= crit:
                for q in range(n):
                    exp[(on[j] + q) % 360] = 1
        for i in range(360):
            s.check_same(out[0][0][i], exp[i], 'longitude in a group of blocked longitudes', info=f'longitude {i}, blocked {on}')
        s.reached('group' if any(exp) else 'no group')
    return Task(f'groups[{offset},{pattern[-24:]},{crit}]', harness, functions=[f'{B}.run_Calc_GIBL'], expect=list(expect), witnesses=3, max_paths=600,
                bounds=f'pattern {pattern} of blocked longitudes from {offset} degrees east, groups of {crit}')


def reading(files, ns, ds):
    """Fields and times of the files; missing files give missing fields."""
    def harness(s):
        m = s.module(U)
        data = {f: [[[s.real(f'{f}[{y},{x}]', np=True) for x in range(2)] for y in range(2)]] for f in sorted(set(files)) if f != 'missing'}
        valid = {'a': '20200101_000000', 'b': '20200102_120000', 'c': '20191231_061530'}
        init = {'a': '20191225_000000', 'b': '20200102_000000', 'c': '20191230_000000'}
        lead = {'a': '1680000', 'b': '120000', 'c': '301530'}

        class Variable:
            def __init__(self, v, f):
                self.v, self.f = v, f

            def __getitem__(self, k):
                return self.v

            def getncattr(self, n):
                return {'init_time': init, 'valid_time': valid}[n][self.f]

        class Dataset:
            def __init__(self, f):
                self.variables = {'lat': Variable(np.array([1.0, 2.0]), f), 'lon': Variable(np.array([3.0, 4.0]), f), 'Z': Variable(s.table(data[f][0]), f)}

            def close(self):
                pass
        m.netCDF4 = types.SimpleNamespace(Dataset=Dataset)
        out = s.call(m.read_nc_met, list(files), 'Z', ns, ds)
        if all(f == 'missing' for f in files):
            s.check(isinstance(out, X.Raised), 'no file at all is refused')
            return
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        for i, f in enumerate(files):
            y, d = divmod(i, ds)
            for a in range(2):
                for x in range(2):
                    s.check_same(out[0][y][d][a][x], data[f][0][a][x] if f != 'missing' else NAN, 'field of the file', info=f'file {i}')
            for k, t in (('init', init), ('valid', valid), ('lead', lead)):
                s.check(out[3][k][y][d] == t.get(f, ''), f'{k} time of the file', info=f'{out[3][k]}')
        s.check(list(out[1]) == [1.0, 2.0] and list(out[2]) == [3.0, 4.0], 'grid')
    return Task(f'reading[{files},{ns}x{ds}]', harness, functions=[f'{U}.read_nc_met'], bounds=f'files {files}, {ns} seasons of {ds} days, any fields')


def tasks(tier):
    q = tier == 'quick'
    out = [instant(1, [86, 85], 2, [-1, 0, 1], 8, False), instant(2, [85], 2, [-1, 1], 8, False), instant(1, [84], 4, [-2, 1], 12, False), instant(1, [80, 83], 6, [0], 16, False), instant(1, [84.5], 2, [-1, 0], 9, False),
           instant(2, [[86, 83], [84, 85]], 2, [-1, 0], 10, True), instant(2, [[86, 84], [float('nan'), 86], [84, float('nan')]], 2, [0, 1], 9, True)]
    out += [central(1, 2, [60, 45, 30], [0], 3, False), central(2, 2, [60, 45], [359], 5, False), central(1, 2, [60, 45], [0, 1], 3, False), central(1, 2, [50, 40, 30], [120], 1, True)]
    full = '#' * 11
    for off in (0, 100, 340, 350, 356):
        out.append(groups(off, '?' + full + '????', 15))
        out.append(groups(off, '###?......?....?####??#?', 15))
    out += [groups(345, '???' + '#' * 12 + '?..???', 15), groups(355, '?####?', 5), groups(30, '##?##..?.##?#', 4, ['group']), groups(0, '#......' * 51 + '??#', 15, ['group'])]
    out += [reading(['a', 'missing', 'b', 'c'], 2, 2), reading(['missing', 'c', 'a'], 1, 3), reading(['missing', 'missing'], 1, 2), reading(['b', 'a'], 2, 1)]
    if not q:
        out += [groups(off, '??##?##??####?#?', 15) for off in (0, 90, 352)]
    return out
