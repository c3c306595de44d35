"""P15: per-record summaries (sum_stat): one statistic per record, groups pooled first."""
from checks.common import *
from checks import aggrun, p01, p02, p03, p04, p05, p14
from symx import explore as X

ASSUMPTIONS = [REALS, 'complete records with a positive number of pairs', 'reading and writing the data files is outside the symbolic run; replays use real files']
RAW = {
    'ctc': (p01.NAMES, {k: p01.SPECS[k] for k in ('calculate_baser', 'calculate_acc', 'calculate_fbias', 'calculate_pody', 'calculate_far',
                                                  'calculate_csi', 'calculate_gss', 'calculate_hk', 'calculate_hss', 'calculate_podn')}),
    'nbrctc': (p01.NAMES, {k: p05.CTC[k] for k in ('calculate_nbr_pody', 'calculate_nbr_far', 'calculate_nbr_csi', 'calculate_nbr_gss')}),
    'sl1l2': (p02.NAMES[:-1], {k: p02.SPECS[k] for k in ('calculate_fbar', 'calculate_me', 'calculate_mse', 'calculate_rmse', 'calculate_pr_corr',
                                                         'calculate_fstdev', 'calculate_bcmse', 'calculate_mbias')}),
    'sal1l2': (p02.ANAMES[:-1], {k: p02.ASPECS[k] for k in ('calculate_anom_corr', 'calculate_anom_corr_raw', 'calculate_rmsfa', 'calculate_rmsoa')}),
    'vl1l2': (p03.NAMES, {k: p03.VL[k] for k in ('calculate_vl1l2_fvar', 'calculate_vl1l2_msve', 'calculate_vl1l2_fspd')}),
    'val1l2': (p03.ANAMES[:-2], {'calculate_val1l2_anom_corr': p03.VAL['calculate_val1l2_anom_corr']}),
    'grad': (p05.GNAMES[:5], {k: p05.GRAD[k] for k in ('calculate_fgbar', 'calculate_s1', 'calculate_s1_og', 'calculate_fgog_ratio')}),
    'nbrcnt': (p05.NAMES, {k: p05.NBR[k] for k in ('calculate_nbr_fbs', 'calculate_nbr_afss', 'calculate_nbr_ufss', 'calculate_nbr_f_rate')}),
    'ecnt': (p04.NAMES, {k: p04.ECNT[k] for k in ('calculate_ecnt_crps', 'calculate_ecnt_crpss', 'calculate_ecnt_me', 'calculate_ecnt_mae')}),
    'rps': (['total', 'rps', 'rps_comp', 'rpss'], {k: p04.RPS[k] for k in ('calculate_rps', 'calculate_rps_comp')}),
}


def params(line, stats, series, indy_vals=()):
    p = aggrun.params(line, stats, series, indy_vals=indy_vals)
    return p


def spec_of(line, f, rec):
    names = list(rec)
    C = Cols([[rec[k] for k in names]], names)
    spec = RAW[line][1][f]
    M = C if line in ('ctc', 'nbrctc') else Means(C, False)
    return [(lambda g=g: defined(g, M)) for g in [spec[0]] + list(spec[1] or [])]


def compare(s, line, f, got, rec, label):
    exp = spec_of(line, f, rec)
    r = lambda v: s.r7(v) if v is not None else None
    s.check_same(got, Alt(*[(lambda e=e: r(e())) for e in exp]) if len(exp) > 1 else r(exp[0]()), label)


def raw(line, f):
    names = RAW[line][0]
    stat = f[len('calculate_'):].upper()

    def harness(s):
        rows = rows_of(s, names, 2, False, lo=0 if line in ('ctc', 'nbrctc') else None)
        models = [pick(s, 'model[0]', ['A', 'B']), 'B']
        cols = {'model': models, 'fcst_var': ['TMP'] * 2, 'fcst_lead': [240000, 120000],
                'fcst_valid_beg': ['2020-01-02 00:00:00', '2020-01-01 00:00:00'], 'stat_name': [stat] * 2, 'stat_value': [None, s.real('old')]}
        for j, k in enumerate(names):
            cols[k] = [r[j] for r in rows]
        out = aggrun.run(s, 'metcalcpy.sum_stat', 'SumStat', 'calculate_stats', params(line, [stat], {'model': ['A', 'B']}), cols,
                         'sum_stat_input', 'sum_stat_output')
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(len(out) == 2, 'one row per record')
        for i in range(2):
            o = out.iloc[i]
            s.check(o['model'] == models[i] and o['fcst_lead'] == cols['fcst_lead'][i] and o['fcst_valid_beg'] == cols['fcst_valid_beg'][i],
                    'records keep their identity and order')
            got = aggrun.cell(o['stat_value'])
            s.reached('value' if got is not None else 'none')
            compare(s, line, f, got, dict(zip(names, rows[i])), 'statistic of the record')
        s.check('total' not in out.columns, 'raw fields are removed')
    return Task(f'{line}.{f}', harness, functions=['metcalcpy.sum_stat.SumStat.calculate_stats'], expect=['value'],
                bounds='2 records, all values symbolic')


def several(line, fs):
    """Records of several statistics in one file: each gets its own."""
    names = RAW[line][0]

    def harness(s):
        rows = rows_of(s, names, 3, False, lo=0 if line in ('ctc', 'nbrctc') else None)
        mine = [pick(s, f'statistic[{i}]', fs) for i in range(3)]
        cols = {'model': ['A', 'B', 'A'], 'fcst_var': ['TMP'] * 3, 'fcst_lead': [120000] * 3, 'fcst_valid_beg': ['2020-01-02 00:00:00'] * 3,
                'stat_name': [f[len('calculate_'):].upper() for f in mine], 'stat_value': [None, s.real('old'), None]}
        for j, k in enumerate(names):
            cols[k] = [r[j] for r in rows]
        out = aggrun.run(s, 'metcalcpy.sum_stat', 'SumStat', 'calculate_stats', params(line, sorted(set(cols['stat_name'])), {'model': ['A', 'B']}), cols,
                         'sum_stat_input', 'sum_stat_output')
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(list(out['stat_name']) == cols['stat_name'] and list(out['model']) == cols['model'], 'records keep their identity and order')
        for i in range(3):
            compare(s, line, mine[i], aggrun.cell(out.iloc[i]['stat_value']), dict(zip(names, rows[i])), 'statistic of the record')
    return Task(f'{line} of several statistics', harness, functions=['metcalcpy.sum_stat.SumStat.calculate_stats'],
                bounds=f'3 records, each of one of {len(fs)} statistics, all values symbolic', witnesses=4)


def lead(x):
    """as written: leads are integers, unless they have decimals"""
    return str(x) if isinstance(x, str) or x % 1 else str(int(x))


def grouped(line, f, n, fields, series, indy_vals, tag):
    names = RAW[line][0]
    stat = f[len('calculate_'):].upper()

    def harness(s):
        recs = p14.records(s, line, fields, n)
        for r in recs:
            r['stat_name'], r['stat_value'] = stat, None
        cols = {k: [r[k] for r in recs] for k in recs[0]}
        out = aggrun.run(s, 'metcalcpy.sum_stat', 'SumStat', 'calculate_stats', params(line, [stat], series, indy_vals), cols,
                         'sum_stat_input', 'sum_stat_output')
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        # reference: requested points only, group members pooled by case
        exp, pooling = {}, set()
        for iv in [x or '' for x in indy_vals] or ['']:
            for g in series['vx_mask']:
                for r in recs:
                    if str(r['vx_mask']) in g.split(';') and (not iv or str(r['fcst_lead']) in iv.split(';')):
                        if ';' in iv and ';' not in g:
                            key = (str(r['vx_mask']), iv.split(';')[0], r['fcst_valid_beg'])
                        else:
                            key = (g if ';' in g else str(r['vx_mask']), str(r['fcst_lead']), r['fcst_valid_beg'])
                        exp.setdefault(key, []).append(r)
                        if ';' in iv or ';' in g:
                            pooling.add(key)
        got = {}
        for i in range(len(out)):
            o = out.iloc[i]
            got.setdefault((str(o['vx_mask']), lead(o['fcst_lead']), o['fcst_valid_beg']), []).append(o)
        s.check(set(got) == set(exp) and all(len(got[k]) == (1 if k in pooling else len(exp[k])) for k in exp), 'one row per case of the group',
                info=f'{sorted(got)} expected {sorted(exp)}')
        if set(got) != set(exp):
            return
        s.reached('pooled' if any(len(v) > 1 for v in exp.values()) else 'single')
        for k, rs in exp.items():
            if k in pooling:
                compare(s, line, f, aggrun.cell(got[k][0]['stat_value']), p14.pooled(line, rs), 'statistic of the pooled records')
            else:
                for o, r in zip(got[k], rs):
                    compare(s, line, f, aggrun.cell(o['stat_value']), p14.pooled(line, [r]), 'statistic of the record')
    return Task(f'{line}.{f} {tag}', harness, functions=['metcalcpy.sum_stat.SumStat.calculate_stats'], expect=['pooled', 'single'],
                bounds=f'{n} records over {fields}, series {series}', max_paths=3000)


def tasks(tier):
    out = []
    for line, (names, specs) in RAW.items():
        for f in specs:
            out.append(raw(line, f))
    out.append(several('sl1l2', ['calculate_fbar', 'calculate_me']))
    out.append(several('ctc', ['calculate_pody', 'calculate_far']))
    one = {'model': ['A'], 'fcst_lead': [120000], 'fcst_valid_beg': p14.V, 'vx_mask': ['EAST', 'WEST', 'NMT']}
    for line, f in (('ctc', 'calculate_pody'), ('sl1l2', 'calculate_me'), ('sal1l2', 'calculate_rmsfa'), ('vl1l2', 'calculate_vl1l2_fvar'),
                    ('grad', 'calculate_s1')):
        out.append(grouped(line, f, 2, one, {'vx_mask': ['EAST;WEST']}, ['120000'], 'grouped by region'))
    out.append(grouped('sl1l2', 'calculate_me', 2, dict(one, fcst_lead=[120000, 240000], vx_mask=['EAST', 'WEST']), {'vx_mask': ['EAST']},
                       ['120000;240000'], 'grouped by lead'))
    out.append(grouped('ctc', 'calculate_pody', 2, dict(one, fcst_lead=[1.5, 2.5], vx_mask=['EAST', 'WEST']), {'vx_mask': ['EAST;WEST']}, ['2.5'], 'at decimal points'))
    out.append(grouped('ctc', 'calculate_pody', 2, dict(one, vx_mask=[0.5, 1.5, 2.5]), {'vx_mask': ['0.5;2.5']}, ['120000'], 'over decimal values'))
    out.append(grouped('ctc', 'calculate_pody', 2, dict(one, vx_mask=[1, 2, 10]), {'vx_mask': ['1;10']}, ['120000'], 'over whole numbers'))
    out.append(grouped('ctc', 'calculate_pody', 2, one, {'vx_mask': ['EAST;WEST', 'EAST;NMT']}, ['120000'], 'overlapping groups'))
    out.append(grouped('ctc', 'calculate_pody', 2, one, {'vx_mask': ['EAST;WEST', 'EAST']}, ['120000'], 'group and member'))
    out.append(grouped('ctc', 'calculate_pody', 2, dict(one, fcst_lead=[120000, 240000], vx_mask=['EAST', 'WEST']), {'vx_mask': ['EAST', 'EAST;WEST']}, ['120000;240000'], 'grouped by lead and region'))
    out.append(grouped('ctc', 'calculate_pody', 2, one, {'vx_mask': ['EAST;WEST', 'NMT']}, [None], 'without points'))
    return out
