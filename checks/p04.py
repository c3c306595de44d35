"""P04: ensemble scores (ECNT, RPS, SSVAR) equal their definitions."""
from checks.common import *
from checks import p02

ASSUMPTIONS = [REALS, 'square root exact', 'non-aggregated tables have one row; aggregated tables hold total-weighted sums']
NAMES = ['total', 'crps', 'crpscl', 'crps_emp', 'crps_emp_fair', 'spread_md', 'crpscl_emp', 'ign', 'me', 'mae',
         'mae_oerr', 'mse', 'variance', 'me_oerr', 'mse_oerr', 'variance_oerr', 'variance_plus_oerr', 'n_ge_obs',
         'n_lt_obs', 'me_ge_obs', 'me_lt_obs', 'rmse', 'spread', 'rmse_oerr', 'spread_oerr', 'spread_plus_oerr']
ident = lambda x: x
E = 'metcalcpy.util.ecnt_statistics'


def mean(k): return (lambda M: M[k], None, True)
def both(f): return (f(half_up), [f(ident)], True)
def root(k): return both(lambda r: lambda M: sqrt(r(M[k])))
def skill(a, b): return (lambda M: 1 - div(M[a], M[b]), None, True)
def tot(k): return (lambda M: M.C[k], None, True)
def cond(a, n): return lambda M: div(M.C[a], M.C[n])


def absolute(x): return x if x >= 0 else -x


ECNT = {
    'calculate_ecnt_crps': mean('crps'), 'calculate_ecnt_crpscl': mean('crpscl'),
    'calculate_ecnt_crpss': skill('crps', 'crpscl'),
    'calculate_ecnt_crps_emp': mean('crps_emp'), 'calculate_ecnt_crps_emp_fair': mean('crps_emp_fair'),
    'calculate_ecnt_spread_md': mean('spread_md'), 'calculate_ecnt_crpscl_emp': mean('crpscl_emp'),
    'calculate_ecnt_crpss_emp': skill('crps_emp', 'crpscl_emp'),
    'calculate_ecnt_ign': mean('ign'), 'calculate_ecnt_me': mean('me'), 'calculate_ecnt_mae': mean('mae'),
    'calculate_ecnt_mae_oerr': mean('mae_oerr'), 'calculate_ecnt_me_oerr': mean('me_oerr'),
    'calculate_ecnt_rmse': root('mse'), 'calculate_ecnt_spread': root('variance'),
    'calculate_ecnt_rmse_oerr': root('mse_oerr'), 'calculate_ecnt_spread_oerr': root('variance_oerr'),
    'calculate_ecnt_spread_plus_oerr': root('variance_plus_oerr'),
    'calculate_ecnt_n_ge_obs': tot('n_ge_obs'), 'calculate_ecnt_n_lt_obs': tot('n_lt_obs'),
    'calculate_ecnt_me_ge_obs': (cond('me_ge_obs', 'n_ge_obs'), None, True),
    'calculate_ecnt_me_lt_obs': (cond('me_lt_obs', 'n_lt_obs'), None, True),
    'calculate_ecnt_bias_ratio': both(lambda r: lambda M: div(r(cond('me_ge_obs', 'n_ge_obs')(M)),
                                                              absolute(r(cond('me_lt_obs', 'n_lt_obs')(M))))),
    'calculate_ecnt_total': (lambda M: M.n, None, False),
}
RPS = {
    'calculate_rps': mean('rps'), 'calculate_rps_comp': mean('rps_comp'), 'calculate_rpss': skill('rps', 'rps_climo'),
    'calculate_rps_total': (lambda M: M.n, None, False),
}
SNAMES = ['total', 'fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'var_mean', 'total_orig', 'mae']
P = p02.SPECS
SS = {'calculate_ssvar_' + k: P['calculate_' + k] for k in
      ('fbar', 'fstdev', 'obar', 'ostdev', 'pr_corr', 'me', 'estdev', 'mse', 'bcmse', 'bcrmse', 'rmse', 'me2', 'msess')}


def acorr(M):
    n = M.n if M.agg else 1
    v = (n * n * M['ffbar'] - n * n * M['fbar'] * M['fbar']) * (n * n * M['oobar'] - n * n * M['obar'] * M['obar'])
    if v <= 0:
        raise Undefined()
    r = div(n * n * M['fobar'] - n * n * M['fbar'] * M['obar'], sqrt(v))
    if r > 1:
        raise Undefined()
    return r


SS['calculate_ssvar_anom_corr'] = (acorr, None, True)
SS['calculate_ssvar_spread'] = (lambda M: sqrt(M['var_mean']), None, True)
SS['calculate_ssvar_total'] = (lambda M: M.C['total_orig'], None, False)


def tasks(tier):
    return means_tasks(E, ECNT, NAMES, tier) + \
        means_tasks('metcalcpy.util.rps_statistics', RPS, ['total', 'rps', 'rps_comp', 'rps_climo', 'rpss'], tier) + \
        means_tasks('metcalcpy.util.ssvar_statistics', SS, SNAMES, tier)
