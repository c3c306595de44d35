"""P06: probability-forecast scores from n-by-2 tables (Brier decomposition, ROC area)."""
from checks.common import *
from symx import fn
from symx.core import is_sym

ASSUMPTIONS = [REALS, 'bins: 2 or 3 probability bins; 1-2 records; bin probabilities symbolic']
M = 'metcalcpy.util.pstd_statistics'


class Bins:
    """Pooled counts per non-empty bin."""

    def __init__(self, rows, names, K):
        C = Cols(rows, names)
        self.C = C
        self.bins = []
        raw = []
        for k in range(K):
            sfx = '' if k == 0 else f'.{k}'
            p = rows[0][names.index('thresh_i' + sfx)]
            raw.append((p, defined(lambda: C['oy_i' + sfx]), defined(lambda: C['on_i' + sfx])))
        if any(oy is None or on is None for _, oy, on in raw):
            raise Undefined()
        for p, oy, on in raw:
            n = oy + on
            if not (n == 0):
                self.bins.append((p, oy, on, n))
        self.obar = rows[0][names.index('o_bar')] if 'o_bar' in names else None

    @property
    def T(self):
        t = 0
        for b in self.bins:
            t = t + b[3]
        return t

    @property
    def oy(self):
        t = 0
        for b in self.bins:
            t = t + b[1]
        return t

    @property
    def on(self):
        t = 0
        for b in self.bins:
            t = t + b[2]
        return t


def wsum(B, f):
    t = 0
    for p, oy, on, n in B.bins:
        d = f(p, div(oy, n))
        t = t + n * d * d
    return div(t, B.T)


def reliability(B): return wsum(B, lambda p, o: p - o)
def resolution(B): return wsum(B, lambda p, o: o - B.obar)


def uncertainty(B):
    o = div(B.oy, B.T)
    return o * (1 - o)


def brier(B): return reliability(B) - resolution(B) + uncertainty(B)
def bss(B): return div(resolution(B) - reliability(B), uncertainty(B))
def baser(B): return div(B.oy, B.T)


def auc(B):
    bins = list(B.bins)
    if not bins:
        raise Undefined()
    # insertion sort by probability
    srt = []
    for b in bins:
        i = len(srt)
        while i > 0 and srt[i - 1][0] > b[0]:
            i -= 1
        srt.insert(i, b)
    uniq = []
    for b in srt:
        if not uniq or not (uniq[-1] == b[0]):
            uniq.append(b[0])
    pts = [(1, 1)]
    for t in uniq:
        hit = fa = 0
        for p, oy, on, n in srt:
            if p > t:
                hit, fa = hit + oy, fa + on
        pts.append((div(hit, B.oy), div(fa, B.on)))
    pts.append((0, 0))
    area = 0
    for (y0, x0), (y1, x1) in zip(pts, pts[1:]):
        area = area + (y0 + y1) * (x0 - x1) / 2
    return area


SPECS = {'calculate_pstd_brier': brier, 'calculate_pstd_bss_smpl': bss, 'calculate_pstd_baser': baser,
         'calculate_pstd_reliability': reliability, 'calculate_pstd_resolution': resolution,
         'calculate_pstd_uncertainty': uncertainty, 'calculate_pstd_roc_auc': auc}


def strict(rows, names, k):
    j = names.index(k)
    return strict_total([r[j] for r in rows])


def ni(rows, names): return strict(rows, names, 'oy_i') + strict(rows, names, 'on_i')


def task(f, K, n, nan, spec):
    names = ['total']
    for k in range(K):
        sfx = '' if k == 0 else f'.{k}'
        names += ['thresh_i' + sfx, 'oy_i' + sfx, 'on_i' + sfx]
    names = names + ['o_bar']

    def harness(s):
        m = s.module(M)
        rows = [[s.real(f'{k}[{i}]', nan=nan and i > 0 and k.startswith('o') and k != 'o_bar',
                        lo=0 if not k.startswith('t') else None)
                 if not (k.startswith('thresh') and i > 0) else None for k in names] for i in range(n)]
        for r in rows[1:]:
            for j, k in enumerate(names):
                if k.startswith('thresh') or k == 'o_bar':
                    r[j] = rows[0][j]
        out = s.call(getattr(m, f), s.table(rows), np.array(names))
        B = Bins(rows, names, K)
        v = s.r7(defined(lambda: spec(B)))
        s.reached('value' if out is not None else 'none')
        if spec is auc and not B.bins:   # no data at all: undefined or the no-skill area
            v = Alt(None, 0.5)
        s.check_same(out, v, f'{f}=definition')
    return Task(f'{f}[{K}bins,{n}x{"nan" if nan else "num"}]', harness, functions=[f'{M}.{f}'],
                bounds=f'{K} bins, {n} record(s), counts nonnegative reals{" or missing after the first record" if nan else ""}',
                expect=['value'], branch_timeout=600)


def simple(f, n, spec, alt=None):
    names = ['total', 'thresh_i', 'oy_i', 'on_i']

    def harness(s):
        m = s.module(M)
        rows = rows_of(s, names, n, True)
        out = s.call(getattr(m, f), s.table(rows), np.array(names))
        exp = [(lambda g=g: s.r7(defined(lambda: g(rows, names)))) for g in [spec] + (alt or [])]
        s.reached('value' if out is not None else 'none')
        s.check_same(out, Alt(*exp), f'{f}=definition')
    return Task(f'{f}[{n}]', harness, functions=[f'{M}.{f}'], bounds=f'{n} records', expect=['value', 'none'])


def calibration(r):
    return lambda rows, names: div(strict(rows, names, 'oy_i'), r(ni(rows, names)))


def tasks(tier):
    out = []
    shapes = [(1, 1, False), (2, 1, False), (2, 2, True), (3, 1, False)] if tier == 'quick' else \
        [(1, 1, False), (2, 1, False), (2, 2, True), (2, 3, True), (3, 1, False), (3, 2, True), (4, 1, False)]
    for f, spec in SPECS.items():
        for K, n, nan in shapes:
            out.append(task(f, K, n, nan, spec))
    for n in (1, 2, 3):
        out.append(simple('calculate_pstd_ni', n, ni))
        out.append(simple('calculate_pstd_calibration', n, calibration(half_up), [calibration(lambda x: x)]))
        out.append(simple('calculate_pct_total', n, lambda rows, names: Cols(rows, names)['total']))
    return out
