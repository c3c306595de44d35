"""P05: neighborhood and gradient scores equal their definitions."""
from checks.common import *
from checks import p01

ASSUMPTIONS = [REALS, 'non-aggregated tables have one row; aggregated tables hold total-weighted sums',
               'log-free scores only (neighborhood contingency scores use ratios)']
NAMES = ['total', 'fbs', 'fss', 'f_rate', 'o_rate']
GNAMES = ['total', 'fgbar', 'ogbar', 'mgbar', 'egbar', 's1', 's1_og', 'fgog_ratio']


def mean(k): return (lambda M: M[k], None, True)
def ratio(a, b): return (lambda M: 100 * div(M[a], M[b]), None, True)


NBR = {
    'calculate_nbr_fbs': mean('fbs'),
    'calculate_nbr_fss': (lambda M: 1 - div(M['fbs'], M['fss']), None, True),
    'calculate_nbr_afss': (lambda M: div(2 * M['f_rate'] * M['o_rate'],
                                         M['f_rate'] * M['f_rate'] + M['o_rate'] * M['o_rate']), None, True),
    'calculate_nbr_ufss': (lambda M: Fraction(1, 2) + M['o_rate'] / 2, None, True),
    'calculate_nbr_f_rate': mean('f_rate'), 'calculate_nbr_o_rate': mean('o_rate'),
    'calculate_nbr_cnt_total': (lambda M: M.n, None, False),
}
GRAD = {
    'calculate_fgbar': mean('fgbar'), 'calculate_ogbar': mean('ogbar'), 'calculate_mgbar': mean('mgbar'),
    'calculate_egbar': mean('egbar'), 'calculate_s1': ratio('egbar', 'mgbar'), 'calculate_s1_og': ratio('egbar', 'ogbar'),
    'calculate_fgog_ratio': ratio('fgbar', 'ogbar'), 'calculate_grad_total': (lambda M: M.n, None, False),
}
CTC = {'calculate_nbr_' + k: p01.SPECS['calculate_' + k] for k in
       ('baser', 'acc', 'fbias', 'fmean', 'pody', 'pofd', 'podn', 'far', 'csi', 'gss', 'hk', 'hss', 'odds')}
CTC['calculate_nbr_ctc_total'] = p01.SPECS['calculate_ctc_total']


def tasks(tier):
    out = means_tasks('metcalcpy.util.nbrcnt_statistics', NBR, NAMES, tier) + \
        means_tasks('metcalcpy.util.grad_statistics', GRAD, GNAMES, tier)
    sizes = [(1, True), (2, True), (6, 'mixed'), (17, False)] if tier == 'quick' else [(1, True), (2, True), (3, True), (6, 'mixed'), (17, False), (60, False)]
    for f, (spec, alt) in CTC.items():
        for n, nan in sizes:
            if f.endswith('baser') and n > 2 and nan:
                continue
            out.append(stat_task('metcalcpy.util.nbrctc_statistics', f, p01.NAMES, spec, n, nan, lo=0, alt=alt,
                                 expect=['value', 'none'] if nan is True else ['value']))
    return out
