"""P16: event equalization keeps exactly the cases common to all series."""
from checks.common import *
from checks import aggrun, p12
from symx import explore as X
import itertools

ASSUMPTIONS = [REALS, 'three to four records; series value, time, lead, level and region of each record are symbolic (decided by forking), its value is symbolic',
               'reading and writing the data files is outside the symbolic run; replays use real files']
V = ['2020-01-01 00:00:00', '2020-01-02 00:00:00']
LEADLIKE = ('fcst_valid_beg', 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg')
EE = 'metcalcpy.event_equalize.event_equalize'


def records(s, n, fields):
    recs = []
    for i in range(n):
        r = {}
        for k, v in fields.items():
            v = v[i] if isinstance(v, tuple) else v           # a tuple lists the domain of each record
            r[k] = v[0] if len(v) == 1 else pick(s, f'{k}[{i}]', v)
        r['stat_value'] = s.real(f'value[{i}]')
        r['id'] = i
        recs.append(r)
    return recs


def columns(recs):
    return {k: [r[k] for r in recs] for k in recs[0]}


def members(vals):
    out = []
    for v in vals:
        if v.count(':') >= 2 and v[:4].isdigit():
            parts = v.split(':')                   # dates contain the separator themselves
            out += [':'.join(parts[i:i + 3]) for i in range(0, len(parts), 3)]
        else:
            out += v.split(':')
    return out


def equal(r, k, v):
    if v == 'NA':
        return r[k] is None
    return r[k] is not None and str(r[k]) == str(v)


def case(r, indy, by_indep):
    c = (r.get('fcst_valid_beg', r.get('fcst_valid')), r['fcst_lead'])
    return c + ((r[indy],) if by_indep and indy not in LEADLIKE else ())


def kept(recs, indy, series, fixed, by_indep=True):
    want = {k: members([v] if isinstance(v, str) else v) for k, v in series.items() if k not in LEADLIKE}
    want.update({k: list(v) for k, v in fixed.items() if k not in LEADLIKE})
    common = None
    for p in itertools.product(*want.values()):
        have = {case(r, indy, by_indep) for r in recs if all(equal(r, k, v) for k, v in zip(want, p))}
        common = have if common is None else common & have
    return [r for r in recs if case(r, indy, by_indep) in common]


def compare(s, out, exp, recs, ordered=True):
    s.check(not isinstance(out, X.Raised), 'equalization runs', info=f'{out!r}')
    if isinstance(out, X.Raised):
        return
    s.reached('nothing kept' if not exp else 'all kept' if len(exp) == len(recs) else 'some kept')
    ids = [int(i) for i in out['id']] if 'id' in out.columns else []
    want = [r['id'] for r in exp]
    if not ordered:
        ids, want = sorted(ids), sorted(want)
    s.check(ids == want, 'records of the common cases, each once', info=f'kept {ids}, expected {want}')
    for j, i in enumerate(int(i) for i in (out['id'] if ids else [])):
        r = recs[i]
        s.check_same(aggrun.cell(out['stat_value'].iloc[j]), r['stat_value'], 'values are unchanged')
        s.check(all((aggrun.cell(out[k].iloc[j]) is None) if r[k] is None else str(out[k].iloc[j]) == str(r[k])
                    for k in r if k not in ('stat_value', 'id')), 'labels are unchanged')


def direct(name, n, fields, indy, series, fixed=(), by_indep=True, multi=False, text_fix=False):
    fixed = dict(fixed)

    def harness(s):
        recs = records(s, n, fields)
        m = s.module('metcalcpy.event_equalize')
        fix_vars, fix_vals = list(fixed), [list(v) for v in fixed.values()]
        if text_fix:
            fix_vars, fix_vals = fix_vars[0], [fix_vals[0][0]]
        out = s.call(m.event_equalize, s.frame(columns(recs)), indy, {k: list(v) if not isinstance(v, str) else v for k, v in series.items()},
                     fix_vars, fix_vals, by_indep, multi)
        compare(s, out, kept(recs, indy, series, fixed, by_indep), recs)
    return Task(name, harness, functions=[EE], expect=['some kept'] if n > 2 else [], witnesses=8, max_paths=6000,
                bounds=f'{n} records over {fields}; series {series}, fixed {fixed}, independent variable {indy}')


def axis(name, n, fields, series, stats, fixed=(), series2=None, stats2=None, indy='fcst_lead', line='sl1l2', function='perform_event_equalization', plain=False):
    fixed = dict(fixed)

    def harness(s):
        recs = records(s, n, fields)
        m = s.module('metcalcpy.util.utils')
        params = {'series_val_1': {k: list(v) for k, v in series.items()}, 'fcst_var_val_1': {k: list(v) for k, v in stats.items()},
                  'series_val_2': {k: list(v) for k, v in (series2 or {}).items()}, 'fcst_var_val_2': {k: list(v) for k, v in (stats2 or {}).items()},
                  'indy_var': indy, 'line_type': line, 'fixed_vars_vals_input': {k: list(v) if plain else {k + '_0': list(v)} for k, v in fixed.items()}}
        frame = s.frame(columns(recs))
        if function == 'equalize_axis_data':
            out = s.call(m.equalize_axis_data, list(fixed), [list(v) for v in fixed.values()], params, frame, '1')
        else:
            out = s.call(m.perform_event_equalization, params, frame)

        def one(ser, st):
            res = []
            for fv, sts in st.items():
                for t in sts:
                    sel = [r for r in recs if r['fcst_var'] == fv and r['stat_name'] == t
                           and all(any(equal(r, k, x) for x in members(v)) for k, v in ser.items())]
                    res += kept(sel, indy, ser, fixed)
            return res
        exp = one(series, stats)
        if series2:
            both = {k: sorted(set(list(series.get(k, [])) + list(series2.get(k, [])))) for k in {**series, **series2}}
            exp = kept(exp + one(series2, stats2), indy, both, fixed)
        compare(s, out, exp, recs)
        if not isinstance(out, X.Raised):
            s.check('equalize' not in out.columns, 'no helper column is left')
    return Task(name, harness, functions=['metcalcpy.util.utils.' + function, EE], expect=['some kept'], witnesses=8, max_paths=6000,
                bounds=f'{n} records over {fields}; series {series} / {series2}, variables {stats} / {stats2}, fixed {fixed}')


def against(name, n, fields, cases, column='fcst_valid'):
    def harness(s):
        recs = records(s, n, fields)
        m = s.module('metcalcpy.event_equalize_against_values')
        chosen = [c for i, c in enumerate(cases) if pick(s, f'case[{i}]', [True, False])]
        out = s.call(m.event_equalize_against_values, s.frame(columns(recs)), list(chosen))
        compare(s, out, [r for r in recs if f'{r.get("fcst_valid")} {r["fcst_lead"]}' in chosen] if column == 'fcst_valid' else [], recs)
        if not isinstance(out, X.Raised):
            s.check('equalize' not in out.columns, 'no helper column is left')
    return Task(name, harness, functions=['metcalcpy.event_equalize_against_values.event_equalize_against_values'], witnesses=8,
                expect=['some kept', 'nothing kept'] if column == 'fcst_valid' else [], bounds=f'{n} records over {fields}; any subset of the cases {cases}')


def mode_tool(name, n, fields, series, fixed=(), series2=None, indy='fcst_lead'):
    fixed = dict(fixed)

    def harness(s):
        recs = records(s, n, fields)
        params = {'series_val_1': {k: list(v) for k, v in series.items()}, 'series_val_2': {k: list(v) for k, v in (series2 or {}).items()},
                  'indy_var': indy, 'fixed_vars_vals_input': {k: {k + '_0': list(v)} for k, v in fixed.items()}}
        out = aggrun.run(s, 'metcalcpy.agg_stat_event_equalize', 'AggStatEventEqualize', 'calculate_values', params, columns(recs))

        def one(ser):
            sel = [r for r in recs if all(any(equal(r, k, x) for x in members(v)) for k, v in ser.items())]
            return kept(sel, indy, ser, fixed)
        exp = one(series)
        if series2:
            both = {k: sorted(set(list(series.get(k, [])) + list(series2.get(k, [])))) for k in {**series, **series2}}
            exp = kept(exp + one(series2), indy, both, fixed)
        compare(s, out, exp, recs)
    return Task(name, harness, functions=['metcalcpy.agg_stat_event_equalize.AggStatEventEqualize.calculate_values', EE], expect=['some kept'],
                witnesses=8, max_paths=6000, bounds=f'{n} records over {fields}; series {series} / {series2}, fixed {fixed}')


def eqz_tool(name, n, fields, series, fcst, series2=None, fcst2=None, enabled='True'):
    def harness(s):
        recs = records(s, n, fields)
        prev = []
        for i in range(2):
            last = {k: v[-1] if isinstance(v, tuple) else v for k, v in fields.items()}
            prev.append({k: v[0] if len(v) == 1 or (i == 1 and k == 'fcst_var') else pick(s, f'previous {k}[{i}]', v) for k, v in last.items()})
        for r in prev:
            r['equalize'] = f'{r["fcst_valid"]} {r["fcst_lead"]}'
        params = {'series_val_1': {k: list(v) for k, v in series.items()}, 'series_val_2': {k: list(v) for k, v in (series2 or {}).items()},
                  'event_equal': enabled, 'fcst_var_val_1': {f: ['X'] for f in fcst}, 'fcst_var_val_2': {f: ['X'] for f in fcst2 or []}}
        out = aggrun.run(s, 'metcalcpy.agg_stat_eqz', 'AggStatEventEqz', 'calculate_values', params, columns(recs),
                         extra={'agg_stat_input_ee': columns(prev)})

        def one(ser, fv):
            hit = lambda r: r['fcst_var'] == fv and all(any(equal(r, k, x) for x in members(v)) for k, v in ser.items())
            ok = {(r['fcst_valid'], r['fcst_lead']) for r in prev if hit(r)}
            return [r for r in recs if hit(r) and (r['fcst_valid'], r['fcst_lead']) in ok]
        exp = recs if enabled != 'True' else [r for ser, fs in ((series, fcst), (series2, fcst2 or [])) for f in fs for r in one(ser, f)]
        if isinstance(out, X.Raised) and not exp:
            s.reached('empty output')              # a file without columns cannot be read back
            s.check(out.exc.__class__.__name__ == 'EmptyDataError', 'only the empty output is unreadable', info=f'{out!r}')
            return
        compare(s, out, exp, recs)
    return Task(name, harness, functions=['metcalcpy.agg_stat_eqz.AggStatEventEqz.calculate_values',
                                          'metcalcpy.event_equalize_against_values.event_equalize_against_values'],
                expect=['some kept'] if enabled == 'True' else ['all kept'], witnesses=8, max_paths=6000,
                bounds=f'{n} records and 2 previous cases over {fields}; series {series} / {series2}')


def agg_tool(name, n, fields, series, stat, fixed=(), tool='agg'):
    """The aggregation tool with equalization on: statistics of the equalized records only."""
    fixed = dict(fixed)

    def harness(s):
        recs = records(s, n, fields)
        for i, r in enumerate(recs):
            r.update(total=np.float64(2 * i + 1), fbar=s.real(f'fbar[{i}]'), obar=np.float64(3), fobar=np.float64(1), ffbar=np.float64(2),
                     oobar=np.float64(3), mae=np.float64(1), stat_name=stat, stat_value=0.0)
        p = aggrun.params('sl1l2', [stat], series, indy_vals=['120000', '240000'], event_equal='True',
                          fixed_vars_vals_input={k: {k + '_0': list(v)} for k, v in fixed.items()})
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci', p, columns(recs))
        sel = [r for r in recs if r['fcst_var'] == 'TMP' and r['model'] in members(series['model'])]
        eq = kept(sel, 'fcst_lead', series, fixed)
        s.reached('nothing kept' if not eq else 'all kept' if len(eq) == len(recs) else 'some kept')
        if isinstance(out, X.Raised) and not eq:
            s.check(out.exc.__class__.__name__ == 'EmptyDataError', 'only the empty output is unreadable', info=f'{out!r}')
            return
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        pts = list(itertools.product(series['model'], ['120000', '240000']))
        s.check(len(out) == len(pts) or not eq, 'one output row per requested point', info=f'{len(out)} rows')
        for i in range(len(out)):
            o = out.iloc[i]
            mine = [r for r in eq if r['model'] in members([o['model']]) and str(r['fcst_lead']) == str(o['fcst_lead'])]
            v = p12.sl(mine, stat)
            s.check(int(o['nstats']) == len(mine), 'number of records used')
            s.check_same(aggrun.cell(o['stat_value']), s.r7(v) if v is not None else None, 'statistic of the equalized records')
    return Task(name, harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci', 'metcalcpy.util.utils.perform_event_equalization', EE],
                expect=['some kept', 'all kept', 'nothing kept'], witnesses=8, max_paths=4000, bounds=f'{n} records over {fields}; series {series}, fixed {fixed}')


def sum_tool(name, n, fields, series):
    """The summary tool with equalization on: the statistic of each equalized record."""
    def harness(s):
        recs = records(s, n, fields)
        for i, r in enumerate(recs):
            r.update(total=np.float64(2 * i + 1), fbar=s.real(f'fbar[{i}]'), obar=np.float64(3), fobar=np.float64(1), ffbar=np.float64(2),
                     oobar=np.float64(3), mae=np.float64(1), stat_name='ME')
        p = aggrun.params('sl1l2', ['ME'], series, indy_vals=['120000', '240000'], event_equal='True')
        out = aggrun.run(s, 'metcalcpy.sum_stat', 'SumStat', 'calculate_stats', p, columns(recs), 'sum_stat_input', 'sum_stat_output')
        eq = kept([r for r in recs if r['fcst_var'] == 'TMP' and r['model'] in series['model']], 'fcst_lead', series, {})
        s.reached('nothing kept' if not eq else 'all kept' if len(eq) == len(recs) else 'some kept')
        if isinstance(out, X.Raised) and not eq:
            s.check(out.exc.__class__.__name__ == 'EmptyDataError', 'only the empty output is unreadable', info=f'{out!r}')
            return
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        ids = [int(out['id'].iloc[i]) for i in range(len(out))]
        s.check(sorted(ids) == [r['id'] for r in eq], 'one row per equalized record', info=f'{sorted(ids)} expected {[r["id"] for r in eq]}')
        for i, j in enumerate(ids):
            s.check_same(aggrun.cell(out['stat_value'].iloc[i]), s.r7(p12.sl([recs[j]], 'ME')), 'statistic of the equalized record')
    return Task(name, harness, functions=['metcalcpy.sum_stat.SumStat.calculate_stats', 'metcalcpy.util.utils.perform_event_equalization', EE],
                expect=['some kept', 'all kept', 'nothing kept'], witnesses=8, max_paths=4000, bounds=f'{n} records over {fields}; series {series}')


AB, ABC = ['A', 'B'], ['A', 'B', 'C']
L2 = [120000, 240000]


def tasks(tier):
    q = tier == 'quick'
    A, B, E, W = ['A'], ['B'], ['E'], ['W']
    EW, Z = ['E', 'W'], ['Z2', 'Z10']
    V1, L1 = V[:1], L2[:1]
    times = {'fcst_valid_beg': V, 'fcst_lead': L1}
    cross = {'model': (A, A, B, B, AB), 'vx_mask': (E, W, E, W, EW), **times}
    base = {'model': (A, ABC, ABC), 'fcst_valid_beg': V, 'fcst_lead': L2}
    one = {'model': (AB, AB, ABC, ABC), 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}
    out = [
        direct('two models', 3, base, 'fcst_lead', {'model': AB}),
        direct('two models, four records', 4, one, 'fcst_lead', {'model': AB}),
        direct('three models', 4, one, 'fcst_lead', {'model': ABC}),
        direct('one model given as text', 2, base, 'fcst_lead', {'model': 'A'}),
        direct('repeated events', 3, one, 'fcst_lead', {'model': AB}, multi=True),
        direct('groups', 4, one, 'fcst_lead', {'model': ['A:B']}),
        direct('groups and single', 4, one, 'fcst_lead', {'model': ['A:B', 'C']}),
        direct('no series', 2, {'model': AB, 'fcst_valid_beg': V, 'fcst_lead': L2}, 'fcst_lead', {}),
        direct('two series variables', 5, cross, 'fcst_lead',
               {'model': AB, 'vx_mask': ['E', 'W']}),
        direct('levels are part of the case', 3, {'model': AB, 'fcst_lev': ['Z2', 'Z10'], 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}, 'fcst_lev', {'model': AB}),
        direct('levels are not part of the case', 3, {'model': AB, 'fcst_lev': ['Z2', 'Z10'], 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}, 'fcst_lev',
               {'model': AB}, by_indep=False),
        direct('fixed values', 5, cross, 'fcst_lead', {'model': AB},
               {'vx_mask': ['E', 'W']}),
        direct('one fixed value', 3, {'model': AB, 'vx_mask': ['E', 'W'], 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}, 'fcst_lead', {'model': AB},
               {'vx_mask': ['E']}),
        direct('fixed value given as text', 3, {'model': AB, 'vx_mask': ['E', 'W'], 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}, 'fcst_lead', {'model': AB},
               {'vx_mask': ['W']}, text_fix=True),
        direct('fixed whole numbers', 3, {'model': AB, 'interp_pnts': [1, 25], 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}, 'fcst_lead', {'model': AB},
               {'interp_pnts': ['25']}),
        direct('missing fixed value', 3, {'model': AB, 'fcst_thresh': [None, '>1'], 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}, 'fcst_lead', {'model': AB},
               {'fcst_thresh': ['NA']}),
        direct('two fixed variables', 4, {'model': (A, B, AB, AB), 'vx_mask': (E, E, EW, EW), 'fcst_lev': (Z[1:], Z[1:], Z, Z), **times},
               'fcst_lead', {'model': AB}, {'vx_mask': ['E'], 'fcst_lev': ['Z10']}),
        direct('valid times as series', 3, base, 'fcst_lead', {'model': AB, 'fcst_valid_beg': [V[0] + ':' + V[1]]}),
        direct('dates of another column as series', 3, {'obs_time': V, 'fcst_valid_beg': V, 'fcst_lead': L2}, 'fcst_lead',
               {'obs_time': [V[0] + ':' + V[1]]}),
        direct('other name of the valid time', 3, {'model': AB, 'fcst_valid': V, 'fcst_lead': L2}, 'fcst_lead', {'model': AB}),
        direct('whole numbers as series', 3, {'interp_pnts': [1, 25, 4], 'fcst_valid_beg': V, 'fcst_lead': L1}, 'fcst_lead', {'interp_pnts': ['1', '25']}),
        direct('decimals as series', 3, {'alpha': [0.5, 2.5, 25.0], 'fcst_valid_beg': V, 'fcst_lead': L1}, 'fcst_lead', {'alpha': ['0.5:2.5']}),
        axis('whole numbers as series of an axis', 3, {'interp_pnts': [1, 25, 4], **times, 'fcst_var': ['TMP'], 'stat_name': ['ME']}, {'interp_pnts': ['1', '25']}, {'TMP': ['ME']}),
        axis('decimals as series of an axis', 3, {'alpha': [0.5, 2.5, 25.0], **times, 'fcst_var': ['TMP'], 'stat_name': ['ME']}, {'alpha': ['0.5', '2.5']}, {'TMP': ['ME']}),
        mode_tool('object records, numbers as series', 3, {'fcst_rad': [1, 25, 4], **times}, {'fcst_rad': ['1', '25']}),
        eqz_tool('previous cases, numbers as series', 2, {'fcst_rad': [1, 25], 'fcst_valid': V, 'fcst_lead': L1, 'fcst_var': ['TMP']}, {'fcst_rad': ['25']}, ['TMP']),
        axis('one axis', 4, {'model': (A, AB, ABC, ABC), 'fcst_valid_beg': V, 'fcst_lead': L2[:1], 'fcst_var': ['TMP'], 'stat_name': ['ME']}, {'model': AB}, {'TMP': ['ME']},
             function='equalize_axis_data'),
        axis('variables and statistics separately', 3,
             {'model': (A, B, AB), **times, 'fcst_var': (['TMP'], ['TMP', 'DPT'], ['TMP', 'DPT']), 'stat_name': ['ME', 'RMSE']},
             {'model': AB}, {'TMP': ['ME', 'RMSE'], 'DPT': ['ME']}),
        axis('all series variables select', 3,
             {'model': (A, AB, ABC), 'vx_mask': (EW, EW, EW + ['X']), **times, 'fcst_var': ['TMP'], 'stat_name': ['ME']},
             {'model': ['A', 'B'], 'vx_mask': ['E']}, {'TMP': ['ME']}),
        axis('fixed values of a group', 3, {'model': AB, 'vx_mask': ['E', 'W'], 'fcst_valid_beg': V, 'fcst_lead': L2[:1], 'fcst_var': ['TMP'], 'stat_name': ['ME']},
             {'model': ['A:B']}, {'TMP': ['ME']}, {'vx_mask': ['E']}),
        axis('fixed values as a list', 3, {'model': AB, 'vx_mask': ['E', 'W'], 'fcst_valid_beg': V, 'fcst_lead': L2[:1], 'fcst_var': ['TMP'], 'stat_name': ['ME']},
             {'model': ['A']}, {'TMP': ['ME']}, {'vx_mask': ['E', 'W']}, plain=True),
        axis('two axes', 4, {'model': (A, B, AB, AB), **times, 'fcst_var': (['TMP'], ['TMP', 'DPT'], ['TMP', 'DPT'], ['DPT']), 'stat_name': ['ME']}, {'model': AB},
             {'TMP': ['ME']}, series2={'model': AB}, stats2={'DPT': ['ME']}),
        axis('two axes with different models', 4, {'model': (A, B, ['C'], ABC), 'fcst_valid_beg': V, 'fcst_lead': L2[:1], 'fcst_var': ['TMP'], 'stat_name': ['ME']},
             {'model': ['A', 'B']}, {'TMP': ['ME']}, series2={'model': ['C']}, stats2={'TMP': ['ME']}),
        axis('spread-skill records', 3, {'model': AB, 'fcst_valid_beg': V, 'fcst_lead': L2, 'fcst_var': ['TMP'], 'stat_name': ['ME']}, {'model': AB},
             {'TMP': ['ME']}, line='ssvar'),
        against('given cases', 2, {'fcst_valid': V, 'fcst_lead': L2, 'model': ['A']}, [f'{v} {l}' for v in V for l in L2]),
        against('no valid time', 1, {'fcst_valid_beg': V, 'fcst_lead': L2, 'model': ['A']}, [f'{V[0]} {L2[0]}'], column=None),
        mode_tool('object records', 4, one, {'model': AB}),
        mode_tool('object records, two series variables', 4, {'model': (A, B, AB, AB), 'vx_mask': (E, EW, EW, W), **times},
                  {'model': AB, 'vx_mask': ['E']}),
        mode_tool('object records, fixed variables', 4, {'model': (A, B, AB, AB), 'vx_mask': (E, E, EW, EW), 'fcst_lev': (Z[1:], Z[1:], Z, Z), **times},
                  {'model': AB}, {'vx_mask': ['E'], 'fcst_lev': ['Z10']}),
        mode_tool('object records, both axes', 4, {**one, 'model': (A, B, ['C'], ABC)}, {'model': AB}, series2={'model': ['C']}),
        eqz_tool('previous cases', 2, {'model': (A, AB), 'fcst_valid': V, 'fcst_lead': (L1, L2), 'fcst_var': ['TMP']}, {'model': ['A']}, ['TMP']),
        eqz_tool('previous cases, two variables and axes', 2, {'model': (B, AB), 'fcst_valid': V, 'fcst_lead': L2[:1], 'fcst_var': ['TMP', 'DPT']},
                 {'model': AB}, ['TMP'], {'model': ['B']}, ['DPT']),
        eqz_tool('previous cases, two series variables', 2, {'model': (A, AB), 'vx_mask': (E, EW), 'fcst_valid': (V, V), 'fcst_lead': L2[:1], 'fcst_var': ['TMP']},
                 {'model': ['A:B'], 'vx_mask': ['E']}, ['TMP']),
        eqz_tool('equalization switched off', 2, {'model': (A, AB), 'fcst_valid': V, 'fcst_lead': L1, 'fcst_var': ['TMP']}, {'model': ['A']}, ['TMP'], enabled='False'),
        sum_tool('summaries of equalized records', 3, {'model': (A, AB, ABC), 'fcst_valid_beg': V, 'fcst_lead': L2, 'fcst_var': ['TMP']}, {'model': AB}),
        agg_tool('aggregation of equalized records', 3, {'model': (A, AB, ABC), 'fcst_valid_beg': V, 'fcst_lead': L2, 'fcst_var': ['TMP']}, {'model': AB}, 'FBAR'),
        agg_tool('aggregation of equalized groups', 5, {**cross, 'fcst_var': ['TMP']},
                 {'model': ['A', 'A:B']}, 'FBAR', {'vx_mask': ['E', 'W']}),
    ]
    if not q:
        out += [direct('two models, two leads, four records', 4, {'model': AB, 'fcst_valid_beg': V, 'fcst_lead': L2}, 'fcst_lead', {'model': AB}),
                direct('three models, five records', 5, {'model': ABC, 'fcst_valid_beg': V, 'fcst_lead': L2[:1]}, 'fcst_lead', {'model': ABC}),
                axis('two axes, five records', 5, {'model': AB, 'fcst_valid_beg': V, 'fcst_lead': L2[:1], 'fcst_var': ['TMP', 'DPT'], 'stat_name': ['ME']},
                     {'model': AB}, {'TMP': ['ME']}, series2={'model': AB}, stats2={'DPT': ['ME']})]
        for t in out[-3:]:
            t.max_paths = 40000
    out.append(direct('leads and points that share digits', 4, {'model': (['A'], ['A'], ['B'], ['B']), 'fcst_valid_beg': [V[0]], 'fcst_lead': [1, 12],
                                                                'interp_pnts': [20, 0]}, 'interp_pnts', {'model': ['A', 'B']}))
    out.append(direct('dates and leads that share digits', 3, {'model': (['A'], ['A', 'B'], ['B']), 'fcst_valid_beg': ['2020010100', '202001010'], 'fcst_lead': ['0', '00']},
                      'fcst_lead', {'model': ['A', 'B']}))
    return out
