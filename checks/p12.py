"""P12: every requested curve point is computed from exactly the matching records."""
from checks.common import *
from checks import aggrun
from symx import explore as X
import itertools
import re

ASSUMPTIONS = [REALS, 'two to three records; which model, lead, variable and level each belongs to is symbolic (forked); values symbolic',
               'reading and writing the data files is outside the symbolic run; replays use real files']
OUT = ('model', 'fcst_lead', 'stat_name')


def sl(rows, stat):
    """FBAR / ME over weighted means, as reported"""
    if not rows:
        return None
    n = sum(r['total'] for r in rows)
    m = lambda k: sum(r[k] * r['total'] for r in rows) / n
    return {'FBAR': lambda: m('fbar'), 'OBAR': lambda: m('obar'), 'ME': lambda: m('fbar') - m('obar')}[stat]()


def ctc(rows, stat):
    if not rows:
        return None
    c = {k: sum(r[k] for r in rows) for k in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'total')}
    f = {'PODY': lambda: div(c['fy_oy'], c['fy_oy'] + c['fn_oy']), 'FAR': lambda: div(c['fy_on'], c['fy_oy'] + c['fy_on'])}[stat]
    return defined(f)


def table(s, n, fields, line, stats, same=False):
    """same: all records carry the same values at the same time."""
    rows = []
    fields = dict(fields, stat_name=stats)
    for i in range(n):
        r = {k: (v[0] if len(v) == 1 else pick(s, f'{k}[{i}]', v)) for k, v in fields.items()}
        if line == 'sl1l2':
            if same and i:
                r.update({k: rows[0][k] for k in ('total', 'fbar', 'obar')})
            else:
                r.update(total=np.float64(2 * i + 1), fbar=s.real(f'fbar[{i}]'), obar=s.real(f'obar[{i}]'))
            r.update(fobar=np.float64(1), ffbar=np.float64(2), oobar=np.float64(3), mae=np.float64(1))
        else:
            for k in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on'):
                r[k] = rows[0][k] if same and i else s.real(f'{k}[{i}]', lo=0) if k != 'fn_on' else np.float64(7)
            r['total'] = np.float64(50)
        r['fcst_valid_beg'] = f'2020-01-0{n if same else n - i} 00:00:00'
        r['stat_value'] = 0.0
        rows.append(r)
    return rows, {k: [r[k] for r in rows] for k in rows[0]}


def matches(r, key, wanted):
    """wanted: one value, or values of a group."""
    return str(r[key]) in wanted


def split(v):
    if ';' in v:
        return v.split(';')
    return re.findall(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d', v) or v.split(':')


def task(name, line, n, fields, series, indy, indy_vals, stats, axis2=None, fcst='TMP', tag='', same=False):
    fun = sl if line == 'sl1l2' else ctc

    def harness(s):
        rows, cols = table(s, n, fields, line, sorted(set(list(stats) + (list(axis2[1]) if axis2 else []))), same)
        kw = {}
        if axis2:
            kw = {'series_val_2': {k: list(v) for k, v in axis2[0].items()}, 'list_stat_2': list(axis2[1]),
                  'fcst_var_val_2': {axis2[2]: list(axis2[1])}}
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                         aggrun.params(line, stats, series, indy=indy, indy_vals=indy_vals, fcst=fcst, **kw), cols)
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        exp = []
        for ser, sts, fv in [(series, stats, fcst)] + ([axis2] if axis2 else []):
            keys = list(ser) + ([indy] if indy_vals else []) + ['stat_name']
            for p in itertools.product(*(list(ser.values()) + ([list(indy_vals)] if indy_vals else []) + [sts])):
                exp.append((dict(zip(keys, p)), fv))
        s.check(len(out) == len(exp), 'one output row per requested point', info=f'{len(out)} rows, expected {len(exp)}')
        if len(out) != len(exp):
            return
        for i, (p, fv) in enumerate(exp):
            o = out.iloc[i]
            s.check(all(str(o[k]) == v for k, v in p.items()) and str(o['fcst_var']) == fv, 'rows are labelled in request order',
                    info=f'{ {k: o[k] for k in p} } expected {p}')
            sel = [r for r in rows if r['fcst_var'] == fv and all(matches(r, k, split(v)) for k, v in p.items())]
            s.check(int(o['nstats']) == len(sel), 'number of records used', info=f'{p}: {o["nstats"]} expected {len(sel)}')
            v = fun(sel, p['stat_name'])
            s.reached('some' if sel else 'no records')
            s.check_same(aggrun.cell(o['stat_value']), s.r7(v) if v is not None else None, 'value from the matching records', info=f'{p}')
    return Task(name, harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['some', 'no records'],
                bounds=f'{n} records over {fields}; series {series}, points {indy_vals}, statistics {stats}', witnesses=8, max_paths=4000)


M2 = ['A', 'B']
L2 = [120000, 240000]


def append(second):
    """Two runs onto the same output file."""
    def harness(s):
        rows, cols = table(s, 2, {'model': M2, 'fcst_lead': [120000], 'fcst_var': ['TMP']}, 'sl1l2', ['FBAR'])
        p = aggrun.params('sl1l2', ['FBAR'], {'model': ['A']}, indy_vals=['120000'], append_to_file='False')
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci', p, cols, again={'series_val_1': {'model': ['B']}, 'append_to_file': second})
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        want = ['A', 'B'] if second == 'True' else ['B']
        s.check(list(out['model']) == want, 'rows of both runs' if second == 'True' else 'rows of the last run', info=f'{list(out["model"])}')
        if list(out['model']) != want:
            return
        for i, m in enumerate(want):
            v = sl([r for r in rows if r['model'] == m], 'FBAR')
            s.check_same(aggrun.cell(out.iloc[i]['stat_value']), s.r7(v) if v is not None else None, 'value from the matching records')
    return Task(f'append_to_file={second}', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], witnesses=4, bounds='2 records, two runs')


def pct(stat, fields, series, indy, indy_vals, n=3, first=None):
    """Probability tables of two bins; scores relative to the event frequency of the records of the point."""
    def harness(s):
        rows = []
        for i in range(n):
            r = {k: (v[0] if len(v) == 1 else first[i][k] if first and i < len(first) and k in first[i] else pick(s, f'{k}[{i}]', v)) for k, v in fields.items()}
            r.update({'total': np.float64(20), 'thresh_i': np.float64(0.25), 'oy_i': s.real(f'oy[{i}]', lo=0), 'on_i': np.float64(3 + i),
                      'thresh_i.1': np.float64(0.75), 'oy_i.1': np.float64(2 * i + 1), 'on_i.1': np.float64(2)})
            r.update(fcst_valid_beg=f'2020-01-0{n - i} 00:00:00', stat_name=stat, stat_value=0.0)
            rows.append(r)
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                         aggrun.params('pct', [stat], series, indy=indy, indy_vals=indy_vals), {k: [r[k] for r in rows] for k in rows[0]})
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        pts = list(itertools.product(*series.values(), indy_vals))
        s.check(len(out) == len(pts), 'one output row per requested point', info=f'{len(out)} rows')
        if len(out) != len(pts):
            return
        for i, p in enumerate(pts):
            o, p = out.iloc[i], dict(zip(list(series) + [indy], p))
            s.check(all(str(o[k]) == v for k, v in p.items()), 'rows are labelled in request order')
            sel = [r for r in rows if r['fcst_var'] == 'TMP' and all(matches(r, k, split(v)) for k, v in p.items())]
            s.check(int(o['nstats']) == len(sel), 'number of records used', info=f'{p}: {o["nstats"]} expected {len(sel)}')
            s.reached('one record' if len(sel) == 1 else 'several')
            bins = [(t, sum(r['oy_i' + x] for r in sel), sum(r['on_i' + x] for r in sel)) for t, x in ((Fraction(1, 4), ''), (Fraction(3, 4), '.1'))]
            T = sum(y + z for _, y, z in bins)
            mean = sum(y for _, y, _ in bins) / T
            spread = lambda f: sum((y + z) * f(t, y / (y + z)) * f(t, y / (y + z)) for t, y, z in bins) / T
            v = {'PSTD_RESOLUTION': lambda: spread(lambda t, b: b - mean),
                 'PSTD_BRIER': lambda: spread(lambda t, b: t - b) - spread(lambda t, b: b - mean) + mean * (1 - mean),
                 'PSTD_BASER': lambda: mean}[stat]()
            s.check_same(aggrun.cell(o['stat_value']), s.r7(v), 'value from the matching records', info=f'{p}')
    return Task(f'probability tables[{stat},{indy}]', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['one record', 'several'],
                bounds=f'{n} records of two bins over {fields}; series {series}, points {indy_vals}', witnesses=4)


def reliability(n=3):
    """Reliability diagram: one record per bin, the bins of the data are the points."""
    def harness(s):
        rows = []
        for i in range(n):
            r = {'model': pick(s, f'model[{i}]', M2), 'fcst_var': 'TMP', 'fcst_lead': 120000, 'total': np.float64(20),
                 'thresh_i': pick(s, f'bin[{i}]', [0.25, 0.75]) if i > 1 else [0.25, 0.75][i],
                 'oy_i': s.real(f'oy[{i}]', lo=0), 'on_i': np.float64(i + 1)}
            r.update(fcst_valid_beg=f'2020-01-0{n - i} 00:00:00', stat_name='PSTD_NI', stat_value=0.0)
            rows.append(r)
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                         aggrun.params('pct', ['PSTD_NI'], {'model': M2}, indy='thresh_i', indy_vals=['0.25', '0.75']),
                         {k: [r[k] for r in rows] for k in rows[0]})
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        pts = list(itertools.product(M2, [0.25, 0.75]))
        s.check(len(out) == len(pts), 'one output row per bin of the data', info=f'{len(out)} rows')
        if len(out) != len(pts):
            return
        for i, (m, b) in enumerate(pts):
            o = out.iloc[i]
            s.check(str(o['model']) == m and float(o['thresh_i']) == b, 'rows are labelled in order')
            sel = [r for r in rows if r['model'] == m and r['thresh_i'] == b]
            s.reached('some' if sel else 'no records')
            if sel:
                y, z = sum(r['oy_i'] for r in sel), sum(r['on_i'] for r in sel)
                s.check_same(aggrun.cell(o['stat_value']), s.r7(y + z), 'value from the matching records')
    return Task('reliability diagram', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['some', 'no records'],
                bounds=f'{n} records of two models and two bins', witnesses=4)


def expected_correct():
    """Contingency records of a point share their expected-correct value."""
    def harness(s):
        rows, cols = table(s, 3, {'model': M2, 'fcst_lead': [120000], 'fcst_var': ['TMP']}, 'ctc', ['PODY'])
        ec = cols['ec_value'] = [s.real(f'ec[{i}]', lo=0, hi=1) for i in range(3)]
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci', aggrun.params('ctc', ['PODY'], {'model': M2}, indy_vals=['120000']), cols)
        mixed = any(ec[i] != ec[j] for i in range(3) for j in range(i) if rows[i]['model'] == rows[j]['model'])
        if isinstance(out, X.Raised):
            s.reached('refused')
            s.check(isinstance(out.exc, ValueError), 'the records are refused', info=f'{out!r}')
            s.check(mixed, 'only records that differ are refused')
            return
        s.reached('accepted')
        s.check(not mixed, 'records that differ are refused')
        for i, m in enumerate(M2):
            v = ctc([r for r in rows if r['model'] == m], 'PODY')
            s.check_same(aggrun.cell(out.iloc[i]['stat_value']), s.r7(v) if v is not None else None, 'value from the matching records')
    return Task('expected-correct values', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['refused', 'accepted'],
                witnesses=4, bounds='3 records of 2 series')


def tasks(tier):
    q = tier == 'quick'
    out = [
        task('two models, two leads', 'sl1l2', 3, {'model': M2, 'fcst_lead': L2, 'fcst_var': ['TMP']},
             {'model': M2}, 'fcst_lead', ['120000', '240000'], ['FBAR']),
        task('two statistics', 'sl1l2', 3, {'model': M2, 'fcst_lead': [120000], 'fcst_var': ['TMP']},
             {'model': M2}, 'fcst_lead', ['120000'], ['FBAR', 'ME']),
        task('other models, leads and variables are ignored', 'sl1l2', 2,
             {'model': ['A', 'B', 'AB'], 'fcst_lead': L2 + [0], 'fcst_var': ['TMP', 'DPT']},
             {'model': M2}, 'fcst_lead', ['120000', '0'], ['FBAR']),
        task('groups pool their members', 'sl1l2', 3, {'model': ['A', 'B', 'C'], 'fcst_lead': [120000], 'fcst_var': ['TMP', 'DPT']},
             {'model': ['A', 'A:B', 'B:C']}, 'fcst_lead', ['120000'], ['FBAR']),
        task('two series variables', 'sl1l2', 3, {'model': M2, 'fcst_lead': [120000], 'vx_mask': ['FULL', 'EAST'], 'fcst_var': ['TMP']},
             {'model': M2, 'vx_mask': ['FULL', 'EAST']}, 'fcst_lead', ['120000'], ['OBAR']),
        task('second axis', 'sl1l2', 2, {'model': M2, 'fcst_lead': L2, 'fcst_var': ['TMP', 'DPT']},
             {'model': ['A']}, 'fcst_lead', ['120000', '240000'], ['FBAR'], axis2=({'model': ['B', 'A']}, ['ME'], 'DPT')),
        task('contingency tables', 'ctc', 2, {'model': M2 + ['C'], 'fcst_lead': L2, 'fcst_var': ['TMP']},
             {'model': ['A', 'A:B']}, 'fcst_lead', ['120000', '240000'], ['PODY', 'FAR']),
        task('dates as points', 'sl1l2', 2, {'model': ['A', 'B'], 'fcst_lead': [120000], 'fcst_var': ['TMP'],
                                               'fcst_init_beg': ['2020-01-01 00:00:00', '2020-01-02 12:00:00']},
             {'model': M2}, 'fcst_init_beg', ['2020-01-01 00:00:00', '2020-01-02 12:00:00'], ['FBAR']),
        task('numeric thresholds as points', 'sl1l2', 2, {'model': ['A', 'B'], 'fcst_lead': [120000], 'fcst_var': ['TMP'],
                                                            'interp_pnts': [1, 10, 100]},
             {'model': M2}, 'interp_pnts', ['1', '10', '100'], ['FBAR']),
        task('decimal points', 'sl1l2', 2, {'model': ['A', 'B'], 'fcst_lead': [120000], 'fcst_var': ['TMP'], 'alpha': [0.5, 2.5, 10.25]},
             {'model': M2}, 'alpha', ['2.5', '0.5'], ['FBAR']),
        task('decimal series values', 'sl1l2', 2, {'model': ['A', 'B'], 'fcst_lead': [120000], 'fcst_var': ['TMP'], 'alpha': [0.5, 2.5, 10.25]},
             {'alpha': ['2.5', '0.5:2.5']}, 'fcst_lead', ['120000'], ['FBAR']),
    ]
    out += [
        task('repeated records', 'sl1l2', 3, {'model': M2, 'fcst_lead': L2, 'fcst_var': ['TMP']},
             {'model': ['A', 'A:B']}, 'fcst_lead', ['120000', '240000'], ['FBAR'], same=True),
        task('repeated contingency tables', 'ctc', 3, {'model': M2, 'fcst_lead': [120000], 'fcst_var': ['TMP']},
             {'model': M2}, 'fcst_lead', ['120000'], ['PODY'], same=True),
        task('groups of dates as points', 'sl1l2', 2, {'model': ['A', 'B'], 'fcst_lead': [120000], 'fcst_var': ['TMP'],
                                                         'fcst_init_beg': ['2020-01-01 00:00:00', '2020-01-02 12:00:00', '2020-01-03 00:00:00']},
             {'model': M2}, 'fcst_init_beg', ['2020-01-01 00:00:00:2020-01-02 12:00:00', '2020-01-03 00:00:00'], ['FBAR']),
        task('no independent values', 'sl1l2', 3, {'model': ['A', 'B', 'C'], 'fcst_lead': L2, 'fcst_var': ['TMP']},
             {'model': ['B', 'A', 'A:C']}, 'fcst_lead', [], ['FBAR']),
        task('groups of points', 'sl1l2', 2, {'model': ['A', 'B'], 'fcst_lead': L2 + [0], 'fcst_var': ['TMP']},
             {'model': M2}, 'fcst_lead', ['0:240000', '120000'], ['FBAR']),
    ]
    two = [{'model': 'A', 'fcst_lead': 120000, 'fcst_var': 'TMP'}, {'model': 'A', 'fcst_lead': 240000, 'fcst_var': 'TMP'}]
    for st in ('PSTD_BRIER', 'PSTD_RESOLUTION', 'PSTD_BASER'):
        out.append(pct(st, {'model': M2, 'fcst_lead': L2, 'fcst_var': ['TMP', 'DPT']}, {'model': ['A']}, 'fcst_lead', ['120000', '240000'], first=two))
    out.append(reliability())
    out.append(expected_correct())
    out += [append('True'), append('False')]
    if not q:
        out += [
            task('three models, three leads, four records', 'sl1l2', 4, {'model': M2 + ['C'], 'fcst_lead': L2, 'fcst_var': ['TMP']},
                 {'model': M2 + ['C', 'A:C']}, 'fcst_lead', ['120000', '240000'], ['FBAR']),
            task('contingency tables, three records', 'ctc', 3, {'model': M2 + ['C'], 'fcst_lead': L2, 'fcst_var': ['TMP']},
                 {'model': ['A', 'A:B']}, 'fcst_lead', ['120000', '240000'], ['PODY', 'FAR']),
        ]
    return out
