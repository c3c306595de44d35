"""P29: smoothing, symmetric parts, coherence and tapering of space-time spectra."""
import math
from checks.common import *
from symx import explore as X
from symx import fn

ASSUMPTIONS = [REALS]
M = 'metcalcpy.contributed.spacetime.spacetime'
NAN = np.float64('nan')


def array(s, v):
    from symx import npx
    a = np.array(v, dtype=object if s.symbolic else float)
    return npx.asobj(a) if s.symbolic else a


def smoothed(v):
    """1-2-1 filter; the weight of a missing or absent neighbour stays with the value."""
    out = []
    for i, x in enumerate(v):
        if fn.isnan(x):
            out.append(NAN)
            continue
        left = v[i - 1] if i > 0 and not fn.isnan(v[i - 1]) else x
        right = v[i + 1] if i + 1 < len(v) and not fn.isnan(v[i + 1]) else x
        out.append((left + 2 * x + right) / 4)
    return out


def smooth(n, nan):
    def harness(s):
        m = s.module(M)
        v = [s.real(f'v[{i}]', nan=nan, np=True) for i in range(n)]
        out = s.call(m.smooth121_1D, array(s, v))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        exp = smoothed(v)
        s.check(len(out) == n, 'length')
        for i in range(n):
            s.check_same(out[i], exp[i], 'smoothed value', info=f'position {i}')
        if not nan and n:
            s.check_same(total(list(out)), total(v), 'the sum is kept')
    return Task(f'smooth[{n}{",nan" if nan else ""}]', harness, functions=[f'{M}.smooth121_1D'], bounds=f'{n} values, any' + (' or missing' if nan else ''))


def smooth_spectra(freq, nw, nan):
    def harness(s):
        m = s.module(M)
        nf = len(freq)
        v = [[[s.real(f'stc[{a},{f},{w}]', nan=nan and freq[f] >= 0, np=True) if a < 4 else np.float64(a * 100 + f * 10 + w) for w in range(nw)] for f in range(nf)] for a in range(8)]
        out = s.call(m.smooth121, array(s, v), np.array(freq))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        z = freq.index(0.0)
        for a in range(8):
            for w in range(nw):
                exp = [v[a][f][w] for f in range(nf)]
                if a < 4:
                    exp = exp[:z + 1] + smoothed(exp[z + 1:])
                for f in range(nf):
                    s.check_same(out[a, f, w], exp[f], 'spectrum after smoothing', info=f'entry {a}, frequency {freq[f]}, wave {w}')
    return Task(f'spectra[{freq},{nw} waves{",nan" if nan else ""}]', harness, functions=[f'{M}.smooth121', f'{M}.smooth121_1D'], bounds=f'frequencies {freq}, {nw} wavenumbers, any spectra')


def symm(lat, opt, nt, nl):
    def harness(s):
        m = s.module(M)
        n = len(lat)
        v = [[[s.real(f'x[{t},{y},{x}]', np=True) for x in range(nl)] for y in range(n)] for t in range(nt)]
        out = s.call(m.get_symmasymm, array(s, v), np.array(lat), opt)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        rows = (n + 1) // 2 if opt == 'symm' else n // 2
        s.check(np.shape(out) == (nt, rows, nl), 'shape', info=f'{np.shape(out)}')
        if np.shape(out) != (nt, rows, nl):
            return
        sg = 1 if opt == 'symm' else -1
        for t in range(nt):
            for y in range(rows):
                for x in range(nl):
                    s.check_same(out[t, y, x], (v[t][y][x] + sg * v[t][n - 1 - y][x]) / 2, 'part of the pair of latitudes', info=f'{t},{y},{x}')
    return Task(f'symm[{lat},{opt},{nt}x{nl}]', harness, functions=[f'{M}.get_symmasymm'], bounds=f'latitudes {lat}, {nt} times, {nl} longitudes, any values')


def coherence(nf, nw, zero):
    def harness(s):
        m = s.module(M)
        v = [[[s.real(f'{q}[{f},{w}]', np=True, lo=0 if a < 2 else None) if a < 4 else np.float64(0) for w in range(nw)] for f in range(nf)] for a, q in enumerate('XYCQ0000')]
        for f in range(nf):
            for w in range(nw):
                s.assume(v[0][f][w] > 0)
                if not zero:
                    s.assume(v[1][f][w] > 0)
                s.assume(v[2][f][w] ** 2 + v[3][f][w] ** 2 > 0)
        out = s.call(m.mjo_cross_coh2pha, array(s, v))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        for f in range(nf):
            for w in range(nw):
                px, py, c, q = (v[a][f][w] for a in range(4))
                sq = c * c + q * q
                if py == 0:
                    s.reached('no power')
                    s.check_same(out[4, f, w], NAN, 'coherence without power')
                else:
                    s.check_same(out[4, f, w], sq / (px * py), 'coherence squared')
                s.check_same(out[5, f, w], fn.arctan2(q, c) if s.symbolic else math.atan2(q, c), 'phase angle')
                r = fn.sqrt(sq) if s.symbolic else math.sqrt(sq)
                s.check_same(out[6, f, w], -q / r, 'phase component 1')
                s.check_same(out[7, f, w], c / r, 'phase component 2')
                s.check_same(out[0, f, w], px, 'power')
                s.check_same(out[2, f, w], c, 'co-spectrum')
                s.check_same(out[3, f, w], q, 'quadrature spectrum')
    return Task(f'coherence[{nf}x{nw}{",no power" if zero else ""}]', harness, functions=[f'{M}.mjo_cross_coh2pha'], expect=['no power'] if zero else [],
                bounds=f'{nf} frequencies, {nw} wavenumbers, any positive power and cross spectra')


def taper(n):
    def harness(s):
        m = s.module(M)
        pct = pick(s, 'pct', [0.0, 0.05, 0.1, 0.25, 0.4, 0.5, 0.75, 1.0])
        out = s.call(m.window_cosbell, n, pct)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(len(out) == n, 'length')
        k = 1
        while 2 * (k + 1) <= Fraction(pct) * n + Fraction(1, 2):
            k += 1
        s.reached(f'{k} tapered')
        for i in range(n):
            e = 1.0
            for j in (i, n - 1 - i):
                if j < k:
                    e *= 0.5 - 0.5 * math.cos(math.pi * (j + 0.5) / k)
            s.check_same(out[i], e, 'weight', info=f'position {i}')
    return Task(f'taper[{n}]', harness, functions=[f'{M}.window_cosbell'], bounds=f'series of {n}, parts from 0 to all tapered', expect=['1 tapered'])


def tasks(tier):
    q = tier == 'quick'
    out = [smooth(n, False) for n in range(0, 6)] + [smooth(n, True) for n in range(1, 6 if q else 8)]
    out += [smooth_spectra([0.0, 0.25, 0.5], 2, False), smooth_spectra([-0.5, 0.0, 0.25, 0.5], 1, False), smooth_spectra([0.0, 0.5], 1, True)]
    for opt in ('symm', 'asymm', 'anti-symm'):
        out += [symm(lat, opt, nt, nl) for lat, nt, nl in (([-10.0, 0.0, 10.0], 1, 2), ([-5.0, 5.0], 2, 1), ([-15.0, -5.0, 5.0, 15.0], 1, 1), ([10.0, 5.0, 0.0, -5.0, -10.0], 1, 1), ([0.0], 1, 1))]
    out += [coherence(1, 1, False), coherence(1, 1, True), coherence(2, 1, True), coherence(1, 2, False)]
    out += [taper(n) for n in ((4, 5, 8) if q else (2, 3, 4, 5, 8, 12, 20))]
    return out
