"""P20: the scorecard tool."""
from checks.common import *
from checks import aggrun
from checks.p13 import ZERO, ONE, NONE, absolute
from symx import explore as X
from symx import fn, libx

ASSUMPTIONS = [REALS, 'both compared series have the same cases (equalized data), as the tool expects', 'labels of the cases are symbolic (decided by forking), values are any reals',
               'the t distribution is an uninterpreted odd increasing function of (t, degrees of freedom); rounding to n digits is uninterpreted within half a unit; replays use scipy',
               'reading and writing the data files is outside the symbolic run; replays use real files']
TOOL = ['metcalcpy.scorecard.Scorecard.calculate_scorecard_data']
DAYS = ['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-03 00:00:00', '2020-01-04 00:00:00']


def mean(xs):
    t = 0
    for x in xs:
        t = t + x
    return t / len(xs)


def ncar(s, a, b, stat):
    """signed 1 - p of the paired t test"""
    n = len(a)
    if n < 2:
        return None
    d = [x - y for x, y in zip(a, b)]
    m = mean(d)
    var = mean([(x - m) * (x - m) for x in d]) * n / (n - 1)
    if var == 0:
        if m == 0:
            return None
        p = 1
    else:
        t = m / (fn.sqrt(var) / fn.sqrt(np.float64(n)))
        p = 1 - 2 * libx.t_any('sf', absolute(t), n - 1)
    if stat in NONE:
        return None
    c = 0 if stat in ZERO else 1
    return -p if absolute(mean(a) - c) > absolute(mean(b) - c) else p


def emc_level(s, ds, ndays):
    """classes of the difference in units of the 95% interval"""
    a1, a2, a3 = [(1.960, 2.576, 3.291), (2.0, 2.66, 3.46), (2.042, 2.75, 3.646), (2.228, 3.169, 4.587)][0 if ndays >= 80 else 1 if ndays >= 40 else 2 if ndays >= 20 else 3]
    ds95 = rnd(ds, 3)
    size = lambda x: rnd(x, 3)
    ds99, ds999 = size(ds95 * a1 / a2), size(ds95 * a1 / a3)
    for lim, up, down in ((ds999, 1, -1), (ds99, 0.99, -0.99), (ds95, 0.95, -0.95)):
        if lim >= 1:
            return up
        if lim <= -1:
            return down
    return 0


def rnd(x, n):
    return fn.round_even(x, n)


def emc(s, a, b, stat, ndays):
    n = len(a)
    if n < 2:
        return None
    d = [y - x for x, y in zip(a, b)]
    m = mean(d) * n / ndays
    t = 0
    for x in d:
        t = t + (x - m) * (x - m)
    std = fn.sqrt(t / ndays)
    half = rnd(1.960 * std / np.sqrt(float(n - 1)), 6)
    m1, m2 = rnd(mean(a), 6), rnd(mean(b), 6)
    if stat.startswith(('ME', 'BIAS')):
        gain = absolute(m2 - m1)
        if absolute(m2) < absolute(m1):
            gain = -gain
    elif stat.startswith(('RMSE', 'RMSVE')):
        gain = m2 - m1
    else:
        gain = m1 - m2
    if half == 0:
        if gain == 0:
            return None
        return 1 if gain > 0 else -1
    return emc_level(s, gain / half, ndays)


def params(series, derived, stats, masks, flag='NCAR', ndays=10):
    return {'append_to_file': False, 'derived_series_1': [list(d) for d in derived], 'equalize_by_indep': True, 'event_equal': False,
            'fcst_var_val_1': {'HGT': list(stats)}, 'fix_val_list_eq': [], 'fixed_vars_vals_input': {}, 'indy_plot_val': [], 'indy_vals': list(masks),
            'indy_var': 'vx_mask', 'line_type': 'sl1l2', 'list_stat_1': list(stats), 'ndays': ndays, 'series_val_1': {k: list(v) for k, v in series.items()}, 'stat_flag': flag}


SIGN = {'DIFF': '-', 'DIFF_SIG': '-', 'SINGLE': '-'}


def tool(name, n, leads, masks, stats, ops, lead_vals=None, mask_vals=None, stat_vals=None, flag='NCAR', ndays=10, mixed=True, dup=False, value=None, time='fcst_valid_beg', more=None, drop=()):
    """n cases present in both models; each has its lead, mask and statistic."""
    lead_vals, mask_vals, stat_vals = lead_vals or [[int(x) for x in leads[0].replace(';', ':').split(':')]], mask_vals or [masks], stat_vals or [stats[:1]]

    def choose(s, what, i, doms):
        d = doms[i % len(doms)]
        return d[0] if len(d) == 1 else pick(s, f'{what}[{i}]', d)

    def harness(s):
        cases = []
        for i in range(n):
            c = {'fcst_lead': choose(s, 'lead', i, lead_vals), 'vx_mask': choose(s, 'mask', i, mask_vals), 'stat_name': choose(s, 'stat', i, stat_vals),
                 'fcst_valid_beg': pick(s, f'date[{i}]', DAYS[:2]) if dup else DAYS[(i * 3 + 1) % 4]}
            for mod in 'AB':
                v = value(mod, i) if value else None
                c[mod] = np.float64(v) if v is not None else s.real(f'{mod}[{i}]')
            cases.append(c)
        named = lambda c: {time if k == 'fcst_valid_beg' else k: c[k] for k in c if k not in 'AB'}
        recs = [dict(model='A', **named(c), stat_value=c['A'], fcst_var='HGT', fcst_lev='P200', other=i) for i, c in enumerate(cases)]
        recs_b = [dict(model='B', **named(c), stat_value=c['B'], fcst_var='HGT', fcst_lev='P200', other=10 + i) for i, c in enumerate(cases)]
        recs = recs + recs_b[::-1] if mixed else recs + recs_b
        derived = [(f'P200 A {l} HGT {st}', f'P200 B {l} HGT {st}', op) for op in ops for l in leads for st in stats]
        series = {'fcst_lead': list(leads), 'fcst_lev': ['P200'], 'model': ['A', 'B']}
        par = {k: v for k, v in {**params(series, derived, stats, masks, flag, ndays), **(more or {})}.items() if k not in drop}
        out = aggrun.run(s, 'metcalcpy.scorecard', 'Scorecard', 'calculate_scorecard_data', par,
                         {k: [r[k] for r in recs] for k in recs[0]}, in_key='sum_stat_input', out_key='sum_stat_output')
        exp = []
        refused = False
        for d in derived:
            lead, st = d[0].split(' ')[2], d[0].split(' ')[-1]
            for mask in masks:
                mine = [c for c in cases if str(c['fcst_lead']) in lead.replace(';', ':').split(':') and str(c['vx_mask']) in mask.split(';') and c['stat_name'] == st]
                mine.sort(key=lambda c: (c['fcst_valid_beg'], c['fcst_lead']))
                if mine:
                    exp.append((d, lead, mask, st, mine))
                    if d[2] != 'SINGLE' and len({(c['fcst_valid_beg'], c['fcst_lead']) for c in mine}) != len(mine):
                        refused = True
        if refused:
            s.reached('refused')
            s.check(isinstance(out, X.Raised), 'repeated cases are refused')
            return
        if not exp:
            s.reached('no data')
            s.check(out is None or isinstance(out, X.Raised) and 'FileNotFound' in repr(out), 'nothing is written without data', info=f'{out!r}')
            return
        s.check(not isinstance(out, X.Raised) and out is not None, 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised) or out is None:
            return
        s.check(len(out) == len(exp), 'one row per derived series and axis value with data', info=f'{len(out)} rows, expected {len(exp)}')
        if len(out) != len(exp):
            return
        rows = {}
        for i in range(len(out)):
            rows.setdefault((str(out['model'].iloc[i]), str(out['vx_mask'].iloc[i])), []).append(i)
        for d, lead, mask, st, mine in exp:
            title = f'{d[2]}({d[0]}-{d[1]})'
            at = rows.get((title, mask), [])
            s.check(len(at) == 1, 'row of the derived series', info=f'{title} {mask} in {list(rows)}')
            if len(at) != 1:
                continue
            o = {k: out[k].iloc[at[0]] for k in out.columns}
            s.check(str(o['stat_name']) == st and str(o['fcst_lead']) == lead and str(o['fcst_var']) == 'HGT', 'row is labelled', info=f'{o}')
            a, b = [c['A'] for c in mine], [c['B'] for c in mine]
            if d[2] == 'SINGLE':
                e = mean(a)
            elif d[2] == 'DIFF':
                e = mean([x - y for x, y in zip(a, b)])
            elif flag == 'EMC':
                e = emc(s, a, b, st, ndays)
            else:
                e = ncar(s, a, b, st)
            s.reached('missing' if e is None else d[2])
            s.check_same(aggrun.cell(o['stat_value']), e, f'{d[2]} over the cases', info=f'{title} {mask}')
    return Task(name, harness, functions=TOOL, expect=[op for op in ops] if stats[0] != 'FBAR' or ops != ('DIFF_SIG',) else ['missing'], witnesses=5, max_paths=4000,
                bounds=f'{n} cases in two models, leads {leads}, masks {masks}, statistics {stats}, {flag}', branch_timeout=600)


def append(second):
    """Two runs onto the same output file."""
    def harness(s):
        recs = [dict(model=m, fcst_lead=24, vx_mask=k, stat_name='RMSE', fcst_valid_beg=DAYS[i], stat_value=s.real(f'{m}[{k},{i}]'), fcst_var='HGT', fcst_lev='P200')
                for m in 'AB' for k in ('N', 'S') for i in range(2)]
        p = params({'fcst_lead': ['24'], 'fcst_lev': ['P200'], 'model': ['A', 'B']}, [('P200 A 24 HGT RMSE', 'P200 B 24 HGT RMSE', 'DIFF')], ['RMSE'], ['N'])
        out = aggrun.run(s, 'metcalcpy.scorecard', 'Scorecard', 'calculate_scorecard_data', dict(p, append_to_file='False'), {k: [r[k] for r in recs] for k in recs[0]},
                         in_key='sum_stat_input', out_key='sum_stat_output', again={'indy_vals': ['S'], 'append_to_file': second})
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        want = ['N', 'S'] if second == 'True' else ['S']
        s.check(list(out['vx_mask']) == want, 'rows of both runs' if second == 'True' else 'rows of the last run', info=f'{list(out["vx_mask"])}')
        if list(out['vx_mask']) != want:
            return
        for i, k in enumerate(want):
            a, b = [[r['stat_value'] for r in recs if r['model'] == m and r['vx_mask'] == k] for m in 'AB']
            s.check_same(aggrun.cell(out['stat_value'].iloc[i]), mean([x - y for x, y in zip(a, b)]), 'DIFF over the cases')
    return Task(f'append_to_file={second}', harness, functions=TOOL, witnesses=4, bounds='2 cases of two series and two points, two runs')


def tasks(tier):
    q = tier == 'quick'
    L = ['120000:240000', '360000']
    ls = [[120000, 240000, 360000]]
    out = [
        tool('means over leads and masks', 3, L, ['EAST', 'WEST'], ['RMSE'], ('DIFF', 'SINGLE'), lead_vals=[[120000, 240000, 360000], [120000, 240000], [360000, 240000, 480000]]),
        tool('decimal axis values', 2, L, ['0.5', '1.5'], ['RMSE'], ('DIFF', 'SINGLE'), lead_vals=[[120000, 360000]], mask_vals=[[0.5, 1.5, 2.5]]),
        tool('decimal series values', 2, ['0.5:2.5', '1.5'], ['EAST'], ['RMSE'], ('DIFF', 'SINGLE'), lead_vals=[[0.5, 1.5], [1.5, 2.5, 3.5]]),
        tool('groups separated by semicolons', 2, ['120000;240000', '360000'], ['WEST', 'EAST'], ['RMSE'], ('DIFF', 'SINGLE'), lead_vals=[[120000, 240000, 360000]], mask_vals=[['EAST', 'WEST', 'NMT']]),
        tool('valid times', 2, ['120000'], ['EAST', 'WEST'], ['RMSE'], ('DIFF', 'DIFF_SIG'), time='fcst_valid', value=lambda m, i: None if i == 0 else 1, drop=('append_to_file',)),
        tool('initialization times', 2, ['120000'], ['EAST', 'WEST'], ['RMSE'], ('DIFF', 'SINGLE'), time='fcst_init_beg'),
        tool('other initialization times', 2, ['120000'], ['EAST', 'WEST'], ['RMSE'], ('DIFF', 'SINGLE'), time='fcst_init'),
        tool('two statistics', 3, ['120000'], ['EAST', 'WEST'], ['RMSE', 'FBAR'], ('DIFF', 'SINGLE'), stat_vals=[['RMSE', 'FBAR']]),
        tool('repeated cases', 2, ['120000:240000'], ['EAST'], ['RMSE'], ('DIFF',), lead_vals=[[120000, 240000]], dup=True),
        tool('repeated cases, single', 2, ['120000'], ['EAST'], ['RMSE'], ('SINGLE',), dup=True),
    ]
    for st in ('RMSE', 'ACC', 'FBAR'):
        out.append(tool(f'significance of {st}', 2, ['120000'], ['EAST'], [st], ('DIFF_SIG',)))
    out.append(tool('significance, three cases', 3, ['120000'], ['EAST'], ['RMSE'], ('DIFF_SIG',), value=lambda m, i: 0 if m == 'B' else None))
    out.append(tool('significance of the statistic of the series', 2, ['120000'], ['EAST', 'WEST'], ['ACC', 'RMSE'], ('DIFF_SIG',), mask_vals=[['EAST', 'WEST'], ['EAST']], stat_vals=[['RMSE'], ['RMSE', 'ACC']]))
    for nd in (10, 19, 20, 39, 40, 79, 80):
        out.append(tool(f'EMC significance, {nd} days', 3, ['120000'], ['EAST'], ['ACC'], ('DIFF_SIG',), flag='EMC', ndays=nd, value=lambda m, i: None if m == 'A' and i == 0 else i + 1 if m == 'B' else i + 2))
    for st in ('ME', 'BIAS', 'RMSE', 'RMSVE', 'MAE'):
        out.append(tool(f'EMC significance of {st}', 2, ['120000'], ['EAST'], [st], ('DIFF_SIG',), flag='EMC', ndays=2, value=lambda m, i: None if i == 0 else 1 if m == 'B' else -2))
    out += [append('True'), append('False')]
    return out
