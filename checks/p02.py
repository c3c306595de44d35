"""P02: continuous scores from scalar (anomaly) partial sums equal their definitions."""
from checks.common import *

ASSUMPTIONS = [REALS, 'square root is the nonnegative root (exact)',
               'non-aggregated tables have one row; aggregated tables hold total-weighted sums']
NAMES = ['total', 'fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'mae']
ANAMES = ['total', 'fabar', 'oabar', 'foabar', 'ffabar', 'ooabar', 'mae']
ident = lambda x: x


def mean(k): return (lambda M: M[k], None, True)


def sd(s, ss, n):
    """sample standard deviation from a sum and a sum of squares"""
    if n < 1:
        raise Undefined()
    return sqrt(div(ss - div(s * s, n), n - 1))


def stdev(k, kk): return (lambda M: sd(M[k] * M.n, M[kk] * M.n, M.n), None, True)


def me(M): return M['fbar'] - M['obar']
def mse(M): return M['ffbar'] + M['oobar'] - 2 * M['fobar']


def both(f):
    """Rounded intermediate results (as reported) or exact ones."""
    return (f(half_up), [f(ident)], True)


def corr(M, f='fbar', o='obar', ff='ffbar', oo='oobar', fo='fobar'):
    n = M.n if M.agg or f == 'fbar' else 1
    v = (n * n * M[ff] - n * n * M[f] * M[f]) * (n * n * M[oo] - n * n * M[o] * M[o])
    if v <= 0:
        raise Undefined()
    r = div(n * n * M[fo] - n * n * M[f] * M[o], sqrt(v))
    if r > 1:
        raise Undefined()
    return r


def mbias(M): return div(M['fbar'], M['obar'])


def acraw(M):
    v = M['ffabar'] * M['ooabar']
    r = div(M['foabar'], sqrt(v))
    if r > 1:
        return 1
    if r < -1:
        return -1
    return r


SPECS = {
    'calculate_fbar': mean('fbar'), 'calculate_obar': mean('obar'), 'calculate_fobar': mean('fobar'),
    'calculate_ffbar': mean('ffbar'), 'calculate_oobar': mean('oobar'), 'calculate_mae': mean('mae'),
    'calculate_fstdev': stdev('fbar', 'ffbar'), 'calculate_ostdev': stdev('obar', 'oobar'),
    'calculate_mbias': (mbias, None, True),
    'calculate_pr_corr': (corr, None, True),
    'calculate_fe': (lambda M: div(M['fbar'] - M['obar'], M['fbar']), None, True),
    'calculate_me': (me, None, True),
    'calculate_me2': both(lambda r: lambda M: r(me(M)) * r(me(M))),
    'calculate_mse': (mse, None, True),
    'calculate_msess': both(lambda r: lambda M: 1 - div(r(mse(M)), r(SPECS['calculate_ostdev'][0](M)) * r(SPECS['calculate_ostdev'][0](M)))),
    'calculate_rmse': both(lambda r: lambda M: sqrt(r(mse(M)))),
    'calculate_si': both(lambda r: lambda M: div(r(sqrt(r(mse(M)))), r(M['obar']))),
    'calculate_estdev': both(lambda r: lambda M: sd(r(me(M)) * M.n, r(mse(M)) * M.n, M.n)),
    'calculate_bcmse': both(lambda r: lambda M: r(mse(M)) - r(me(M)) * r(me(M))),
    'calculate_bcrmse': both(lambda r: lambda M: sqrt(r(r(mse(M)) - r(me(M)) * r(me(M))))),
    'calculate_sl1l2_total': (lambda M: M.n, None, False),
    'calculate_sal1l2_total': (lambda M: M.n, None, False),
}
ASPECS = {
    'calculate_anom_corr': (lambda M: corr(M, 'fabar', 'oabar', 'ffabar', 'ooabar', 'foabar'), None, True),
    'calculate_anom_corr_raw': (acraw, None, True),
    'calculate_rmsfa': (lambda M: sqrt(M['ffabar']), None, True),
    'calculate_rmsoa': (lambda M: sqrt(M['ooabar']), None, True),
}


def tasks(tier):
    return means_tasks('metcalcpy.util.sl1l2_statistics', SPECS, NAMES, tier) + \
        means_tasks('metcalcpy.util.sal1l2_statistics', ASPECS, ANAMES, tier)
