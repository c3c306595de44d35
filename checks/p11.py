"""P11: aggregated statistics weight every record by its number of pairs."""
from checks.common import *
from checks import aggrun, p01, p02, p03, p04, p05
from symx import explore as X

ASSUMPTIONS = [REALS, 'complete records (no missing values) with a positive number of pairs',
               'reading and writing the data files is outside the symbolic run; replays use real files']


def weigh(names, how=None, w='total'):
    """Rows as reported -> rows of weighted sums, by the definition of a pooled mean."""
    how = how or {}

    def f(rows):
        out = []
        for r in rows:
            d = dict(zip(names, r))
            new = {k: how[k](d) if k in how else v if k in COUNTS or k == w else v * d[w] for k, v in d.items()}
            for k in how:
                new.setdefault(k, how[k](d))
            out.append(new)
        keys = list(out[0])
        return Cols([[o[k] for k in keys] for o in out], keys)
    return f


ENAMES = [k for k in p04.NAMES if k not in ('mse', 'variance', 'mse_oerr', 'variance_oerr', 'variance_plus_oerr')]
sq = lambda k: lambda d: d[k] * d[k] * d['total']
EHOW = {'mse': sq('rmse'), 'variance': sq('spread'), 'mse_oerr': sq('rmse_oerr'), 'variance_oerr': sq('spread_oerr'),
        'variance_plus_oerr': sq('spread_plus_oerr'),
        'me_ge_obs': lambda d: d['me_ge_obs'] * d['n_ge_obs'], 'me_lt_obs': lambda d: d['me_lt_obs'] * d['n_lt_obs']}
RNAMES = ['total', 'rps', 'rps_comp', 'rpss']
RHOW = {'rps_climo': lambda d: div(d['rps'], 1 - d['rpss']) * d['total']}
NHOW = {'fss': lambda d: div(d['fbs'], 1 - d['fss']) * d['total']}
SNAMES = ['total', 'bin_n', 'fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'var_mean', 'mae']
SHOW = {'total': lambda d: d['bin_n'], 'total_orig': lambda d: d['total']}


def ssvar(rows):
    out = []
    for r in rows:
        d = dict(zip(SNAMES, r))
        out.append([d['bin_n'], d['total']] + [d[k] * d['bin_n'] for k in SNAMES[2:]])
    return Cols(out, ['total', 'total_orig'] + SNAMES[2:])


# line type -> (columns, weighting, specs)
LINES = {
    'sl1l2': (p02.NAMES, weigh(p02.NAMES), {k: v for k, v in p02.SPECS.items() if k != 'calculate_sal1l2_total'}),
    'sal1l2': (p02.ANAMES, weigh(p02.ANAMES), p02.ASPECS),
    'vl1l2': (p03.NAMES, weigh(p03.NAMES), p03.VL),
    'vcnt': (p03.NAMES, weigh(p03.NAMES), p03.VC),
    'vcnt-dir': (p03.NAMES, weigh(p03.NAMES), p03.VD),
    'vcnt-anom': (p03.ANAMES, weigh(p03.ANAMES), p03.VA),
    'val1l2': (p03.ANAMES, weigh(p03.ANAMES), p03.VAL),
    'ecnt': (ENAMES, weigh(ENAMES, EHOW), p04.ECNT),
    'rps': (RNAMES, weigh(RNAMES, RHOW), p04.RPS),
    'ssvar': (SNAMES, ssvar, p04.SS),
    'nbr_cnt': (p05.NAMES, weigh(p05.NAMES, NHOW), p05.NBR),
    'grad': (p05.GNAMES, weigh(p05.GNAMES), p05.GRAD),
    'ctc': (p01.NAMES, lambda rows: Cols(rows, p01.NAMES), {k: v for k, v in p01.SPECS.items() if k.startswith('calculate_') and k not in ('calculate_sedi', 'calculate_seds', 'calculate_edi', 'calculate_eds', 'calculate_lodds')}),
    'nbr_ctc': (p01.NAMES, lambda rows: Cols(rows, p01.NAMES), p05.CTC),
}
ALL = {}


def task(line, f, n, consts=None, **kw):
    names, weight, specs = LINES[line]
    spec = specs[f]
    lt = line.split('-')[0]
    stat = f[len('calculate_'):].upper()

    def harness(s):
        cs = {k: v for k, v in (consts or {}).items()}
        rows = rows_of(s, names, n, False, consts=cs, lo=0 if lt in ('ctc', 'nbr_ctc') else None)
        for r in rows:
            d = dict(zip(names, r))
            for k in ('total', 'bin_n'):
                if k in d and lt not in ('ctc', 'nbr_ctc'):
                    s.assume(d[k] > 0)
            for k in ('rpss', 'fss'):
                if k in d:
                    s.assume(d[k] < 1)
        cols = {'model': ['GFS'] * n, 'fcst_var': ['TMP'] * n, 'fcst_lead': [120000] * n,
                'fcst_valid_beg': [f'2020-01-0{i + 1} 00:00:00' for i in range(n)], 'stat_name': [stat] * n,
                'stat_value': [0.0] * n}
        for j, k in enumerate(names):
            cols[k] = [r[j] for r in rows]
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                         aggrun.params(lt, [stat], {'model': ['GFS']}, indy_vals=['120000']), cols)
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        got = aggrun.cell(out['stat_value'].iloc[0])
        C = weight(rows)
        M = C if lt in ('ctc', 'nbr_ctc') else Means(C, True)
        digits = None if line == 'vcnt-anom' else 7

        def expected(g):
            v = defined(g, M)
            return s.r7(v, digits) if v is not None and digits is not None else v
        exp = [spec[0]] + list(spec[1] or [])
        s.reached('value' if got is not None else 'none')
        s.check_same(got, Alt(*[(lambda g=g: expected(g)) for g in exp]) if len(exp) > 1 else expected(exp[0]),
                     f'aggregated {f}=definition over weighted means')
    return Task(f'{line}.{f}[{n}]', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['value'],
                bounds=f'{n} complete records, all values symbolic' + (f', except {consts}' if consts else ''), **kw)


def tasks(tier):
    out = []
    for line, (names, weight, specs) in LINES.items():
        for f in specs:
            if line == 'vcnt-dir':
                out.append(task(line, f, 2, consts={'total': np.float64(4), 'uobar': np.float64(-3), 'vobar': np.float64(4)}, branch_timeout=150, budget=400))
                continue
            out.append(task(line, f, 2, consts={'total': np.float64(4)} if f == 'calculate_vcnt_speed_abserr' else None))
            if tier != 'quick':
                out.append(task(line, f, 3, budget=900))
    return out
