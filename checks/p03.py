"""P03: vector wind scores from vector partial sums equal their definitions."""
from checks.common import *
from symx import fn

ASSUMPTIONS = [REALS, 'square root exact; arc tangent uninterpreted with range, quadrant and congruence axioms',
               'non-aggregated tables have one row; aggregated tables hold total-weighted sums']
NAMES = ['total', 'ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar', 'uvffbar', 'uvoobar', 'f_speed_bar', 'o_speed_bar']
ANAMES = ['total', 'ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar', 'fa_speed_bar',
          'oa_speed_bar']
ident = lambda x: x


def both(f):
    return (f(half_up), [f(ident)], True)


def mean(k): return (lambda M: M[k], None, True)
def root(k): return (lambda M: sqrt(M[k]), None, True)


def var(k, s): return lambda M: M[k] - M[s] * M[s]
def std(k, s): return both(lambda r: lambda M: sqrt(r(var(k, s)(M))))


def length(u, v): return sqrt(u * u + v * v)
def speed(w): return lambda M: length(M[f'u{w}bar'], M[f'v{w}bar'])


def direction(u, v):
    """degrees in [0, 360), undefined for calm"""
    tol = Fraction(1, 100000)
    if u < tol and u > -tol and v < tol and v > -tol:
        raise Undefined()
    d = fn.degrees(fn.arctan2(u, v))
    return d - 360 * fn.py_floor(d / 360)


def wdir(w): return lambda M: direction(-M[f'u{w}bar'], -M[f'v{w}bar'])


def diff(f):
    return lambda M: f(M['ufbar'] - M['uobar'], M['vfbar'] - M['vobar'])


def speed_err(r): return lambda M: r(speed('f')(M)) - r(speed('o')(M))


def dir_err(r):
    def g(M):
        f = r(speed('f')(M))
        uf, vf = div(M['ufbar'], f), div(M['vfbar'], f)
        o = r(speed('o')(M))
        uo, vo = div(M['uobar'], o), div(M['vobar'], o)
        return direction(vf * uo - uf * vo, uf * uo + vf * vo)
    return g


def msve(M):
    v = M['uvffbar'] - 2 * M['uvfobar'] + M['uvoobar']
    if v < 0:
        raise Undefined()
    return v


def absolute(x): return x if x >= 0 else -x


def clip(r):
    if r > 1:
        return 1
    if r < -1:
        return -1
    return r


def anom_corr(M):
    n = M.n if M.agg else 1
    C = M.C
    f, o, ff, fo, oo = C['fa_speed_bar'], C['oa_speed_bar'], C['uvffabar'], C['uvfoabar'], C['uvooabar']
    v = (n * ff - f * f) * (n * oo - o * o)
    return clip(div(n * fo - f * o, sqrt(v)))


def anom_corr_un(M):
    C = M.C
    return clip(div(C['uvfoabar'], sqrt(C['uvffabar'] * C['uvooabar'])))


def wind_corr(M):
    uf, vf, uo, vo = M['ufabar'], M['vfabar'], M['uoabar'], M['voabar']
    return div(M['uvfoabar'] - uf * uo - vf * vo,
               sqrt(M['uvffabar'] - uf * uf - vf * vf) * sqrt(M['uvooabar'] - uo * uo - vo * vo))


VL = {
    'calculate_vl1l2_bias': (lambda M: sqrt(M['uvffbar']) - sqrt(M['uvoobar']), None, True),
    'calculate_vl1l2_fvar': (var('uvffbar', 'f_speed_bar'), None, True),
    'calculate_vl1l2_ovar': (var('uvoobar', 'o_speed_bar'), None, True),
    'calculate_vl1l2_fspd': (speed('f'), None, True),
    'calculate_vl1l2_ospd': (speed('o'), None, True),
    'calculate_vl1l2_speed_err': both(speed_err),
    'calculate_vl1l2_msve': (msve, None, True),
    'calculate_vl1l2_rmsve': both(lambda r: lambda M: sqrt(r(msve(M)))),
    'calculate_vl1l2_total': (lambda M: M.n, None, False),
}
VC = {
    'calculate_vcnt_fbar': mean('f_speed_bar'), 'calculate_vcnt_obar': mean('o_speed_bar'),
    'calculate_vcnt_fs_rms': root('uvffbar'), 'calculate_vcnt_os_rms': root('uvoobar'),
    'calculate_vcnt_msve': (msve, None, True),
    'calculate_vcnt_rmsve': both(lambda r: lambda M: sqrt(r(msve(M)))),
    'calculate_vcnt_fstdev': std('uvffbar', 'f_speed_bar'), 'calculate_vcnt_ostdev': std('uvoobar', 'o_speed_bar'),
    'calculate_vcnt_fdir': (wdir('f'), None, True), 'calculate_vcnt_odir': (wdir('o'), None, True),
    'calculate_vcnt_fbar_speed': (speed('f'), None, True), 'calculate_vcnt_obar_speed': (speed('o'), None, True),
    'calculate_vcnt_vdiff_speed': (diff(length), None, True),
    'calculate_vcnt_vdiff_dir': (diff(lambda u, v: direction(-u, -v)), None, True),
    'calculate_vcnt_speed_err': both(speed_err),
    'calculate_vcnt_speed_abserr': both(lambda r: lambda M: absolute(r(speed_err(r)(M)))),
}
VD = {
    'calculate_vcnt_dir_err': both(dir_err),
    'calculate_vcnt_dir_abser': both(lambda r: lambda M: absolute(r(dir_err(r)(M)))),
}
VA = {
    'calculate_vcnt_anom_corr': (anom_corr, None, True),
    'calculate_vcnt_anom_corr_uncntr': (anom_corr_un, None, True),
}
VAL = {
    'calculate_val1l2_anom_corr': (wind_corr, None, True),
    'calculate_val1l2_total': (lambda M: M.n, None, False),
}


def tasks(tier):
    out = means_tasks('metcalcpy.util.vl1l2_statistics', VL, NAMES, tier)
    out += means_tasks('metcalcpy.util.vcnt_statistics', VC, NAMES, tier)
    fixed = {'total': np.float64(4)}
    if tier == 'quick':
        fixed.update(uobar=np.float64(-3), vobar=np.float64(4))
    out += means_tasks('metcalcpy.util.vcnt_statistics', VD, NAMES, tier, branch_timeout=150, budget=400,
                       sizes=[(1, False, False), (2, False, True)], consts=fixed)
    # the observed wind is measured in the aggregate too
    out += means_tasks('metcalcpy.util.vcnt_statistics', VD, NAMES, tier, branch_timeout=150, budget=400,
                       sizes=[(1, False, True)],
                       consts={'total': np.float64(200000), 'uobar': np.float64(-600000), 'vobar': np.float64(800000),
                               'ufbar': np.float64(1000000)})
    out += means_tasks('metcalcpy.util.vcnt_statistics', VA, ANAMES, tier, digits=None)
    out += means_tasks('metcalcpy.util.val1l2_statistics', VAL, ANAMES, tier)
    return out
