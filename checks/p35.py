"""P35: dispersion curves of the equatorial waves."""
import math
from checks.common import *
from symx import explore as X
from symx import core, libx

ASSUMPTIONS = [REALS, 'the root finder of scipy is taken to return the root of the function it is given that is nearest to the starting value',
               'the figures drawn from the curves are not claimed']
M = 'metcalcpy.contributed.spacetime.matsuno_plot'
RE, G, OMEGA = 6.371008e6, 9.80665, 7.292e-05
TOL = 1e-9


def depth(s, lo=1, hi=80):
    """Speed of gravity waves (any) and the equivalent depth that belongs to it."""
    c = s.real('c', np=False, lo=lo, hi=hi)
    return c, c * c / Fraction(str(G)) if s.symbolic else c * c / G


def numbers(max_wn, n_wn, lat):
    wn = [-max_wn + 2.0 * max_wn * i / (n_wn - 1) for i in range(n_wn)]
    cos = math.cos(math.radians(abs(lat)))
    return wn, [w / (RE * cos) for w in wn], 2 * OMEGA * cos / RE


def frequencies(s, out, wn, col=0):
    """Angular frequency per wavenumber; None where there is no wave."""
    s.check(len(out.index) == len(wn) and all(abs(a - b) < 1e-9 for a, b in zip(out.index, wn)) and out.index.name == 'Wavenumber',
            'one row per wavenumber', info=f'{list(out.index)}, {out.index.name}')
    r = []
    for v in list(out.iloc[:, col]):
        if core.is_sym(v):
            r.append(v * Fraction(2 * math.pi / 86400))
        else:
            r.append(None if v is None or v != v else float(v) * 2 * math.pi / 86400)
    return r


def small(s, terms, what, info, minus=0):
    """The terms add up to zero (or to minus), but for rounding."""
    t = -minus
    size = 0
    for x, sign in terms:
        t = t + sign * x
        size = size + x
    s.check((t <= TOL * size) & (t >= -TOL * size), what, info=info)


def relation(s, w, k, c, beta, n, what, minus=0):
    """Matsuno's relation of frequency and wavenumber."""
    sign = 1 if k > 0 else -1
    if n == 'kelvin':
        return small(s, [(w, 1), (c * k, -1)], what, f'k {k}')
    if n == 'mrg':
        return small(s, [(w * w, 1), (c * abs(k) * w, -sign), (beta * c, -1)], what, f'k {k}')
    small(s, [(w * w * w, 1), (c * c * k * k * w, -1), (beta * c * (2 * n + 1) * w, -1), (abs(k) * beta * c * c, -sign)], what, f'k {k}, mode {n}', minus)


KINDS = {
    'kelvin_mode': ('kelvin', +1), 'mrg_mode': ('mrg', -1), 'eig_n_0': ('mrg', +1),
    'er_n': ('er', -1), 'eig_n': ('ig', +1), 'wig_n': ('ig', -1)}


def judge(s, fname, ws, ks, c, beta, n):
    kind, side = KINDS[fname]
    solved = getattr(core.ctx(), 'solved', []) if s.symbolic and kind in ('er', 'ig') else []
    there = [k for k in ks if k * side > 0]
    for w, k in zip(ws, ks):
        if k * side <= 0:
            s.check(w is None, 'no wave on this side', info=f'{fname} k {k}: {w!r}')
            continue
        s.check(w is not None, 'a wave on this side', info=f'{fname} k {k}')
        if w is None:
            continue
        a = c * c * k * k + (2 * n + 1) * beta * c if n is not None else None
        # the root nearest to the starting value: the slow positive root lies below sqrt(a/3), the fast one between sqrt(a/3) and 2 sqrt(a/3),
        # half the sum of the positive roots between sqrt(a)/2 and sqrt(a/3)
        root, v, value = solved[there.index(k)] if len(solved) == len(there) else (w, w, 0)
        if kind == 'er':
            s.check((v > 0) & ((4 if v is not w else 3) * v * v < a), 'the slow root', info=f'k {k}')
        elif kind == 'ig':
            s.check((v > 0) & (3 * v * v > a), 'the fast root', info=f'k {k}')
        else:
            s.check(w > 0, 'positive frequency', info=f'{fname} k {k}')
        what = 'frequency and wavenumber satisfy the dispersion relation'
        if v is not w:
            s.assume(root > 0)
            s.check((w <= (1 + TOL) * root) & (w >= (1 - TOL) * root), what, info='units')
        relation(s, root, k, c, beta, kind if kind in ('kelvin', 'mrg') else n, what, value)


def mode(fname, lat, max_wn, n_wn, n=None, **kw):
    def harness(s):
        m = s.module(M)
        c, he = depth(s)
        if s.symbolic:
            core.ctx().solved = []
        out = s.call(getattr(m, fname), he, *([] if n is None else [n]), latitude=lat, max_wn=max_wn, n_wn=n_wn)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        wn, ks, beta = numbers(max_wn, n_wn, lat)
        judge(s, fname, frequencies(s, out, wn), ks, c, beta, n)
    return Task(f'{fname}[{n},{lat},{max_wn},{n_wn}]', harness, functions=[f'{M}.{fname}', f'{M}.beta_parameters', f'{M}.wn_array', f'{M}.wn2k', f'{M}.afreq2freq'],
                bounds=f'any equivalent depth with wave speed 1 to 80 m/s, latitude {lat}, {n_wn} wavenumbers up to {max_wn}, mode {n}', **kw)


NAMES = {'kelvin_mode': 'Kelvin(he=', 'mrg_mode': 'MRG(he=', 'eig_n_0': 'EIG(n=0,he=', 'er_n': 'ER(n={},he=', 'eig_n': 'EIG(n={},he=', 'wig_n': 'WIG(n={},he='}


def curves(ns):
    return [(f, None) for f in ('kelvin_mode', 'mrg_mode', 'eig_n_0')] + [(f, n) for n in ns for f in ('er_n', 'eig_n', 'wig_n')]


def together(s, out, ns, lat, max_wn, n_wn, cs, solved):
    """All curves in one frame; cs: wave speed, solved: what the root finder was asked for in this frame."""
    wn, ks, beta = numbers(max_wn, n_wn, lat)
    exp = curves(ns)
    names = [str(x) for x in out.columns]
    s.check(len(names) == len(exp) and all(any(x.startswith(NAMES[f].format(n)) for x in names) for f, n in exp), 'one column per curve', info=f'{names}')
    for f, n in exp:
        col = [i for i, x in enumerate(names) if x.startswith(NAMES[f].format(n))]
        if len(col) != 1:
            continue
        ws = frequencies(s, out, wn, col[0])
        if s.symbolic:
            here = [k for k in ks if k * KINDS[f][1] > 0]
            # the starting values that belong to this curve are found by the unknown they were given for
            core.ctx().solved = [] if n is None else [t for t in (match(solved, w) for w in ws if w is not None) if t is not None]
        judge(s, f, ws, ks, cs, beta, n)


def match(solved, w):
    if not core.is_sym(w):
        return None
    vs = w.num.vars() | w.den.vars()
    for t in solved:
        if t[0].num.vars() & vs:
            return t
    return None


def frame(ns, lat, max_wn, n_wn, **kw):
    def harness(s):
        m = s.module(M)
        c, he = depth(s)
        if s.symbolic:
            core.ctx().solved = []
        out = s.call(m.matsuno_dataframe, he, n=ns, latitude=lat, max_wn=max_wn, n_wn=n_wn)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        together(s, out, ns, lat, max_wn, n_wn, c, core.ctx().solved if s.symbolic else [])
    return Task(f'matsuno_dataframe[{ns},{lat},{max_wn},{n_wn}]', harness, functions=[f'{M}.matsuno_dataframe', f'{M}.dispersion'],
                bounds=f'any equivalent depth with wave speed 1 to 80 m/s, latitude {lat}, {n_wn} wavenumbers up to {max_wn}, modes {ns}', **kw)


def depths(ns, lat, max_wn, n_wn, **kw):
    def harness(s):
        m = s.module(M)
        c, he = depth(s)
        if s.symbolic:
            core.ctx().solved = []
        hs = [12, he, 50]
        s.assume((c * c != 12 * Fraction(str(G))) & (c * c != 50 * Fraction(str(G))) if s.symbolic else he not in (12, 50))
        out = s.call(m.matsuno_modes_wk, he=hs, n=ns, latitude=lat, max_wn=max_wn, n_wn=n_wn)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        solved = core.ctx().solved if s.symbolic else []
        s.check(len(out) == 3 and all(any(k is h or k == h for k in out) for h in hs), 'a frame per equivalent depth', info=f'{list(out)}')
        for h, v in zip(hs, (math.sqrt(12 * G), c, math.sqrt(50 * G))):
            together(s, out[h], ns, lat, max_wn, n_wn, v, solved)
    return Task(f'matsuno_modes_wk[{ns},{lat},{max_wn},{n_wn}]', harness, functions=[f'{M}.matsuno_modes_wk', f'{M}.dispersion'],
                bounds=f'three equivalent depths, one of them any with wave speed 1 to 80 m/s, latitude {lat}, {n_wn} wavenumbers up to {max_wn}, modes {ns}', **kw)


def tasks(tier):
    out = []
    for f in ('kelvin_mode', 'mrg_mode', 'eig_n_0'):
        for lat in (0, -12):
            out.append(mode(f, lat, 6, 4))
        out.append(mode(f, 0, 4, 5))
    for f in ('er_n', 'eig_n', 'wig_n'):
        out.append(mode(f, 0.0, 5, 2, 1))
        out.append(mode(f, 8.0, 12, 4, 2))
        out.append(mode(f, -8.0, 4, 5, 3))
    out.append(frame([1, 2, 3], 0.0, 6, 2))
    out.append(frame([2, 1], -5.0, 7, 4))
    out.append(depths([1], 0.0, 6, 2))
    out.append(depths([1, 2], 15.0, 6, 2))
    return out
