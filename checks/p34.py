"""P34: cross-spectra in wavenumber and frequency."""
import math
from checks.common import *
from symx import explore as X
from symx import fn, libx, cplx, core, npx

ASSUMPTIONS = [REALS, 'the Fourier transforms of numpy and the removal of the linear trend are replaced by their definitions in the symbolic run',
               'coefficients of the transforms are compared up to machine rounding', 'in the averaged spectra the step to coherence and phase is replaced by the identity (P29 decides it)', 'the wave filter (kf_filter) is outside the bounds']
M = 'metcalcpy.contributed.spacetime.spacetime'
LIMIT = 100


def array(s, v):
    a = np.array(v, dtype=object if s.symbolic else float)
    return npx.asobj(a) if s.symbolic else a


def values(s, name, shape, concrete, where=None):
    out = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(shape)):
        out[i] = float((k * 5 + 3) % 7 - 2.5) if concrete or where and i[0] not in where else s.real(f'{name}[{",".join(map(str, i))}]', lo=-100, hi=100, np=True)
    return out.tolist()


def transform(x, f, k):
    """Coefficient of frequency f and wavenumber k of rows (time) of longitudes."""
    nt, nl = len(x), len(x[0])
    n = nt * nl // math.gcd(nt, nl)
    re, im = 0, 0
    for t in range(nt):
        for l in range(nl):
            c, d = cplx.root(t * f * (n // nt) + l * k * (n // nl), n)
            v = x[t][l]
            c, d = (c, d) if core.is_sym(v) else (float(c), float(d))
            re, im = re + c * v, im - d * v
    return re, im


def spectra(x, y, f, m, realfft):
    """Power of x and y, co- and quadrature spectrum at frequency f and zonal wavenumber m, averaged over latitudes (arrays [time][lat][lon])."""
    nt, nm, nl = len(x), len(x[0]), len(x[0][0])
    out = [0, 0, 0, 0]
    for j in range(nm):
        a, b = transform([r[j] for r in x], f, -m), transform([r[j] for r in y], f, -m)
        p = [a[0] * a[0] + a[1] * a[1], b[0] * b[0] + b[1] * b[1], a[0] * b[0] + a[1] * b[1], b[0] * a[1] - b[1] * a[0]]
        if realfft:
            p[3] = a[0] * b[1] - a[1] * b[0]
        out = [u + v / (nm * (nt * nl) ** 2) for u, v in zip(out, p)]
    return out


def same(s, got, exp, label, info):
    """Equal within 1e-6; terms that cannot exceed 1e-8 for values up to LIMIT are dropped first."""
    if s.symbolic and not fn.isnan(exp) and not fn.isnan(got):
        d = core.lift(got - exp)
        d = core.SymReal(core.ctx().expand(d.num), d.den, d.nan)
        if len(d.den.t) == 1 and () in d.den.t:
            keep, left = core.lift(0), Fraction(1, 10 ** 7)
            for mono, c in d.num.t.items():
                c = c / d.den.t[()]
                size = abs(c) * LIMIT ** sum(e for _, e in mono)
                if size <= Fraction(1, 10 ** 8) and size <= left:
                    left -= size
                else:
                    keep = keep + c * core.SymReal(core.Poly({mono: Fraction(1)}))
            s.check(s.close(keep, 0.0, 1e-6 - 1e-7), label, info=info)
            return
    s.check(s.close(got, exp, 1e-6), label, info=info) if not fn.isnan(exp) else s.check_same(got, exp, label, info=info)


def segment(nt, nm, nl, cx, cy, realfft):
    fname = 'mjo_cross_segment_realfft' if realfft else 'mjo_cross_segment'

    def harness(s):
        m = s.module(M)
        x, y = values(s, 'x', (nt, nm, nl), cx), values(s, 'y', (nt, nm, nl), cy)
        out = s.call(getattr(m, fname), array(s, x), array(s, y))
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        w = nl // 2
        freqs = list(range(nt // 2 + 1)) if realfft else list(range(-(nt // 2), nt // 2 + 1))
        s.check(tuple(out.shape) == (8, len(freqs), 2 * w + 1), 'size of the spectra', info=f'{out.shape}')
        if tuple(out.shape) != (8, len(freqs), 2 * w + 1):
            return
        for i, f in enumerate(freqs):
            for k in range(-w, w + 1):
                e = spectra(x, y, f, k, realfft)
                for q in range(4):
                    same(s, out[q][i][k + w], e[q], ['power of X', 'power of Y', 'co-spectrum', 'quadrature spectrum'][q], info=f'frequency {f}, wavenumber {k}')
    return Task(f'{fname}[{nt}x{nm}x{nl}{",X fixed" if cx else ""}{",Y fixed" if cy else ""}]', harness, functions=[f'{M}.{fname}'], bounds=f'{nt} times, {nm} latitudes, {nl} longitudes, any values up to 100')


def line_removed(x):
    nt, nm, nl = len(x), len(x[0]), len(x[0][0])
    out = [[[None] * nl for _ in range(nm)] for _ in range(nt)]
    mid = Fraction(nt - 1, 2)
    den = sum((t - mid) ** 2 for t in range(nt))
    for j in range(nm):
        for l in range(nl):
            v = [x[t][j][l] for t in range(nt)]
            num = (lambda c: c) if any(core.is_sym(a) for a in v) else float
            mean = total(v) / nt
            slope = total([num((t - mid) / den) * v[t] for t in range(nt)])
            for t in range(nt):
                out[t][j][l] = v[t] - mean - num(t - mid) * slope
    return out


def whole(nt, nm, nl, seg, overlap, cx, cy, where=None):
    def harness(s):
        m = s.module(M)
        x, y = values(s, 'x', (nt, nm, nl), cx, where), values(s, 'y', (nt, nm, nl), cy, where)
        m.mjo_cross_coh2pha = lambda stc: stc       # decided by P29
        out = s.call(m.mjo_cross, array(s, x), array(s, y), seg, overlap)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        starts = list(range(0, nt - seg + 1, seg + overlap - 1))
        nf, w = seg // 2 + 1, nl // 2
        s.check(out['nseg'] == len(starts), 'number of segments', info=f"{out['nseg']} {starts}")
        s.check(len(out['freq']) == nf and all(abs(f - i / seg) < 1e-12 for i, f in enumerate(out['freq'])), 'frequencies', info=f"{out['freq']}")
        s.check(list(out['wave']) == list(range(-w, w + 1)), 'wavenumbers', info=f"{out['wave']}")
        s.check(abs(out['dof'] - 2.667 * len(starts)) < 1e-9, 'degrees of freedom')
        if tuple(out['STC'].shape) != (8, nf, 2 * w + 1) or out['nseg'] != len(starts):
            return
        a, b = line_removed(x), line_removed(y)
        taper = [Fraction(1)] * seg
        k = max(int((0.1 * seg + 0.5) / 2), 1)
        for i in range(1, k + 1):
            g = Fraction(0.5 - 0.5 * math.cos(math.pi / k * (i - 0.5))).limit_denominator(10 ** 12)
            taper[i - 1], taper[-i] = taper[i - 1] * g, taper[-i] * g
        t4 = lambda v, t0: [[[(taper[t] if core.is_sym(z) else float(taper[t])) * z for z in r] for r in v[t0 + t]] for t in range(seg)]
        for kw in range(-w, w + 1):
            sums = [[0] * nf for _ in range(4)]
            for t0 in starts:
                raw = [None] + [spectra(t4(a, t0), t4(b, t0), f, kw, True) for f in range(1, nf)]
                for q in range(4):
                    for f in range(1, nf):
                        left, right = raw[f - 1] if f > 1 else raw[f], raw[f + 1] if f + 1 < nf else raw[f]
                        sums[q][f] = sums[q][f] + (left[q] + 2 * raw[f][q] + right[q]) / 4
            for q in range(4):
                s.check(bool(fn.isnan(out['STC'][q][0][kw + w])), 'the mean in time is missing')
                for f in range(1, nf):
                    same(s, out['STC'][q][f][kw + w], sums[q][f] / len(starts), ['power of X', 'power of Y', 'co-spectrum', 'quadrature spectrum'][q], info=f'frequency {f}, wavenumber {kw}')
    return Task(f'mjo_cross[{nt}x{nm}x{nl},{seg},{overlap}{",X fixed" if cx else ""}{",Y fixed" if cy else ""}]', harness, functions=[f'{M}.mjo_cross', f'{M}.mjo_cross_segment_realfft', f'{M}.smooth121', f'{M}.window_cosbell'],
                witnesses=3, max_paths=200, bounds=f'{nt} times in segments of {seg} (overlap {overlap}), {nm} latitudes, {nl} longitudes, any values up to 100' + (f' at the times {where}' if where else ''))


def tasks(tier):
    q = tier == 'quick'
    out = []
    for realfft in (False, True):
        for size in ((2, 1, 2), (3, 1, 2), (2, 1, 3), (3, 1, 3), (4, 1, 2), (2, 2, 2), (5, 1, 2), (6, 1, 1), (4, 2, 3), (4, 1, 4)) + (() if q else ((6, 2, 4), (8, 2, 3), (5, 3, 5), (7, 1, 4))):
            out.append(segment(*size, False, False, realfft))
        out += [segment(4, 2, 6, False, True, realfft), segment(6, 2, 4, True, False, realfft)]
    for size in ((4, 1, 2, 4, 1), (5, 1, 2, 4, 1), (8, 1, 1, 4, 1), (6, 1, 2, 6, 1), (6, 1, 1, 4, -1), (5, 1, 3, 3, 0), (5, 2, 2, 5, 1), (4, 2, 3, 2, 1)) + (() if q else ((12, 1, 2, 4, -1), (9, 2, 3, 4, 1), (8, 2, 2, 8, 1))):
        out.append(whole(*size, False, False))
    out += [whole(8, 2, 2, 8, 1, False, True), whole(12, 1, 2, 5, 1, True, False), whole(44, 1, 1, 44, 1, False, True, [0, 1, 2, 20, 42, 43])]
    return out
