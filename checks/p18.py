"""P18: the bootstrap tool for MODE object ratios."""
from checks.common import *
from checks import aggrun, mode, p16, p17
from checks.rng import draws
from symx import explore as X
import itertools

ASSUMPTIONS = [REALS, 'series, time, lead and variable of each object are symbolic (decided by forking), its flags partly, its area is any non-negative real',
               'random draws are inputs: every outcome is explored (forked)', 'reading and writing the data files is outside the symbolic run; replays use real files']
V = ['2020-01-01', '2020-01-02']
L = [120000, 240000]
TOOL = ['metcalcpy.agg_stat_bootstrap.AggStatBootstrap.calculate_values']


def objects(s, n, fields, flags):
    recs = []
    for i in range(n):
        r = {}
        for k, v in fields.items():
            v = v[i] if isinstance(v, tuple) else v
            r[k] = v[0] if len(v) == 1 else pick(s, f'{k}[{i}]', v)
        fl = flags[i % len(flags)]
        for k, v in zip(('fcst_flag', 'simple_flag', 'matched_flag'), fl):
            r[k] = v if v is not None else pick(s, f'{k}[{i}]', [1, 0])
        r.update(object_id=f'F{i}', object_type='2d', area=s.real(f'area[{i}]', lo=0))
        recs.append(r)
    return recs


def columns(recs):
    return {k: [r[k] for r in recs] for k in recs[0]}


def score(s, recs, stat):
    rows = [[r['object_id'], r['object_type'], r['fcst_flag'], r['simple_flag'], r['matched_flag'], r['area']] for r in recs]
    name = stat.lower()
    size = mode.count if name.startswith(('ratio_', 'obj')) and not name.startswith('obja') else mode.area
    what = name.replace('arearat_', '').replace('ratio_', '').replace('obja', '').replace('obj', '')
    if not rows:
        return None
    v = defined(lambda: mode.value(rows, what, size))
    return s.r7(v) if v is not None else None


def tool(name, n, fields, flags, series, stats, leads, iters=1, alpha=0.2, series2=None, stats2=(), limit=4, eq=False, eq_prev=None, others=()):
    def harness(s):
        recs = objects(s, n, fields, flags)
        p = {'indy_var': 'fcst_lead', 'indy_vals': [str(x) for x in leads], 'method': 'perc', 'num_iterations': iters, 'num_threads': 1,
             'event_equal': str(bool(eq)), 'random_seed': None, 'alpha': alpha, 'fixed_vars_vals_input': {},
             'series_val_1': {k: list(v) for k, v in series.items()}, 'series_val_2': {k: list(v) for k, v in (series2 or {}).items()},
             'fcst_var_val_1': {x: list(stats) for x in ('APCP',) + tuple(others)}, 'fcst_var_val_2': {'APCP': list(stats2)} if series2 else {},
             'list_stat_1': list(stats), 'list_stat_2': list(stats2)}
        extra = {}
        if eq:
            prev = [{'model': 'A', 'fcst_var': 'APCP', 'equalize': f'{v} {l}'} for v, l in eq_prev]
            extra = {'agg_stat_input_ee': columns(prev)}
        with draws(s) as d:
            d.limit = limit
            out = aggrun.run(s, 'metcalcpy.agg_stat_bootstrap', 'AggStatBootstrap', 'calculate_values', p, columns(recs), extra=extra)
        if eq:
            recs = [r for r in recs if (r['fcst_valid'], r['fcst_lead']) in eq_prev]
            if not recs:
                # an output file without rows (it has no header either)
                s.check(isinstance(out, X.Raised) and 'EmptyDataError' in repr(out) or not isinstance(out, X.Raised) and len(out) == 0, 'no records left', info=f'{out!r}')
                return
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        exp = []
        for ser, sts in [(series, stats)] + ([(series2, stats2)] if series2 else []):
            for pt in itertools.product(*(list(ser.values()) + [leads, sts])):
                exp.append((dict(zip(list(ser) + ['fcst_lead', 'stat_name'], pt)), ser))
        s.check(len(out) == len(exp), 'one output row per requested point', info=f'{len(out)} rows, expected {len(exp)}')
        if len(out) != len(exp):
            return
        belongs = lambda r, pt, ser: r['fcst_var'] == 'APCP' and r['fcst_lead'] == pt['fcst_lead'] and \
            all(str(r[k]) in pt[k].replace(';', ':').split(':') for k in ser)
        for i, (pt, ser) in enumerate(exp):
            o = out.iloc[i]
            s.check(all(str(o[k]) == str(v) for k, v in pt.items()), 'rows are labelled in request order', info=f'{pt} {list(o)}')
            s.check(str(o['fcst_var']) == 'APCP', 'row of the variable', info=f'{o["fcst_var"]!r}')
            mine = [r for r in recs if belongs(r, pt, ser)]
            v = score(s, mine, pt['stat_name'])
            s.reached('value' if v is not None else 'missing')
            s.check_same(aggrun.cell(o['stat_value']), v, 'ratio over the objects of the point', info=f'{pt}')
            s.check(int(o['nstats']) == len(mine), 'number of objects', info=f'{o["nstats"]} expected {len(mine)}')
            if iters == 1:
                s.check(aggrun.cell(o['stat_btcl']) is None and aggrun.cell(o['stat_btcu']) is None, 'no interval without resampling')
        if iters > 1 and len(exp) == 1 and d.calls:
            pt, ser = exp[0]
            mine = [r for r in recs if belongs(r, pt, ser)]
            cases = sorted({f'{r["fcst_valid"]}#{r["fcst_lead"]}' for r in mine})
            pop, ids, kw = d.calls[-1]
            s.check(pop == len(cases) and kw.get('replace', True) and kw.get('p') is None, 'every case can be drawn, with replacement',
                    info=f'{pop} cases, expected {cases}')
            if pop != len(cases) or ids.ndim != 2:
                return
            vals = []
            for row in ids:
                sample = [r for c in row for r in mine if f'{r["fcst_valid"]}#{r["fcst_lead"]}' == cases[int(c)]]
                vals.append(score(s, sample, pt['stat_name']))
            low, v, high = p17.interval(vals, score(s, mine, pt['stat_name']), Fraction(str(alpha)) if s.symbolic else alpha, 'perc')
            s.reached('interval' if low is not None else 'no interval')
            s.check_same(aggrun.cell(out.iloc[0]['stat_btcl']), low, 'lower bound from the resampled cases')
            s.check_same(aggrun.cell(out.iloc[0]['stat_btcu']), high, 'upper bound from the resampled cases')
    return Task(name, harness, functions=TOOL + (['metcalcpy.bootstrap.bootstrap_and_value_mode'] if iters > 1 else []),
                expect=['value', 'missing'] if iters == 1 and not eq else ['interval'] if iters > 1 else ['value'], witnesses=6, max_paths=5000,
                bounds=f'{n} objects over {fields}, flags {flags}; series {series} / {series2}, statistics {stats}, points {leads}, {iters} iterations')


def tasks(tier):
    q = tier == 'quick'
    AB = ['A', 'B']
    t = {'fcst_valid': V, 'fcst_lead': L, 'fcst_var': ['APCP']}
    t1 = {'fcst_valid': V, 'fcst_lead': L[:1], 'fcst_var': ['APCP']}
    fl = [(1, 1, 1), (None, 1, 0), (1, 1, None)]
    out = [
        tool('models and leads', 2, {'model': AB, **t}, [(1, 1, None), (1, 1, 0)], {'model': AB}, ['RATIO_FSM_FSA'], L),
        tool('two statistics', 2, {'model': (['A'], AB), **t1}, fl, {'model': AB}, ['RATIO_FSA_ASA', 'AREARAT_FSM_FSA'], L[:1]),
        tool('groups', 3, {'model': (['A'], AB, ['B', 'C']), **t1}, fl, {'model': ['A:B', 'A', 'C']}, ['AREARAT_FSA_ASA'], L[:1]),
        tool('numeric series values', 2, {'fcst_rad': [1, 10], **t1}, fl, {'fcst_rad': ['1', '10', '1:10']}, ['RATIO_FSM_FSA'], L[:1]),
        tool('decimal series values and points', 2, {'fcst_rad': [0.5, 2.5], 'fcst_valid': V[:1], 'fcst_lead': [1.5, 3.0], 'fcst_var': ['APCP']}, fl,
             {'fcst_rad': ['2.5', '0.5:2.5']}, ['RATIO_FSM_FSA'], [1.5]),
        tool('other variables are ignored', 2, {'model': ['A'], **t1, 'fcst_var': ['APCP', 'REFC']}, fl, {'model': ['A']}, ['RATIO_FSM_FSA'], L[:1]),
        tool('two variables', 2, {'model': ['A'], **t1, 'fcst_var': ['APCP', 'REFC']}, fl, {'model': ['A']}, ['AREARAT_FSM_FSA'], L[:1], others=['REFC']),
        tool('two series variables', 2, {'model': (['A'], AB), 'vx_mask': ['E', 'W'], **t1}, fl, {'model': AB, 'vx_mask': ['E']}, ['OBJHITS'], L[:1]),
        tool('second axis', 2, {'model': AB, **t1}, fl, {'model': ['A']}, ['RATIO_FSM_FSA'], L[:1], series2={'model': ['B', 'A']}, stats2=['OBJACSI']),
        tool('interval of a count ratio', 3, {'model': ['A'], **t1}, fl, {'model': ['A']}, ['RATIO_FSM_FSA'], L[:1], iters=2),
        tool('interval of an area ratio', 3, {'model': ['A'], **t1, 'fcst_valid': (V[:1], V[1:], V)}, [(1, 1, 1), (1, 1, 0), (0, 1, 1)], {'model': ['A']},
             ['AREARAT_FSM_FSA'], L[:1], iters=2, alpha=0.5),
        tool('equalized against previous cases', 2, {'model': ['A'], **t}, fl, {'model': ['A']}, ['AREARAT_FSM_FSA'], L, eq=True, eq_prev=[(V[0], L[0]), (V[1], L[1])]),
        cases_per_point(3),
        seeded(),
    ]
    if not q:
        out += [tool('three objects, models and leads', 3, {'model': AB, **t}, [(1, 1, None), (1, 1, 0)], {'model': AB}, ['RATIO_FSM_FSA'], L),
                tool('interval, four objects', 4, {'model': ['A'], **t1}, fl, {'model': ['A']}, ['RATIO_FSM_FSA'], L[:1], iters=3, limit=6)]
        for x in out:
            x.max_paths = 20000
    return out


def cases_per_point(n):
    """Resamples of a lead are drawn from the cases of that lead only."""
    def harness(s):
        recs = objects(s, n, {'model': ['A'], 'fcst_valid': V, 'fcst_lead': (L[:1], L[1:], L), 'fcst_var': ['APCP']}, [(1, 1, 1), (1, 1, 0)])
        p = {'indy_var': 'fcst_lead', 'indy_vals': [str(x) for x in L], 'method': 'perc', 'num_iterations': 2, 'num_threads': 1, 'event_equal': 'False',
             'random_seed': None, 'alpha': 0.05, 'fixed_vars_vals_input': {}, 'series_val_1': {'model': ['A']}, 'series_val_2': {},
             'fcst_var_val_1': {'APCP': ['RATIO_FSM_FSA']}, 'fcst_var_val_2': {}, 'list_stat_1': ['RATIO_FSM_FSA'], 'list_stat_2': []}
        with draws(s) as d:
            d.limit = 0
            out = aggrun.run(s, 'metcalcpy.agg_stat_bootstrap', 'AggStatBootstrap', 'calculate_values', p, columns(recs))
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        want = [len({r['fcst_valid'] for r in recs if r['fcst_lead'] == l}) for l in L]
        s.reached('both leads')
        s.check([c[0] for c in d.calls] == want, 'cases of the point are resampled', info=f'{[c[0] for c in d.calls]} expected {want}')
    return Task('cases of each lead', harness, functions=TOOL, expect=['both leads'], bounds=f'{n} objects at two leads', witnesses=4)


def seeded():
    def harness(s):
        recs = objects(s, 3, {'model': ['A'], 'fcst_valid': (V[:1], V[1:], V), 'fcst_lead': L[:1], 'fcst_var': ['APCP']}, [(1, 1, 1), (1, 1, 0), (0, 1, 1)])
        seed = pick(s, 'seed', [3, 'None', None, 0])
        p = {'indy_var': 'fcst_lead', 'indy_vals': [str(L[0])], 'method': 'perc', 'num_iterations': 2, 'num_threads': 1, 'event_equal': 'False',
             'random_seed': seed, 'alpha': 0.05, 'fixed_vars_vals_input': {}, 'series_val_1': {'model': ['A']}, 'series_val_2': {},
             'fcst_var_val_1': {'APCP': ['AREARAT_FSM_FSA']}, 'fcst_var_val_2': {}, 'list_stat_1': ['AREARAT_FSM_FSA'], 'list_stat_2': []}
        p17.reproducible(s, seed, lambda: aggrun.run(s, 'metcalcpy.agg_stat_bootstrap', 'AggStatBootstrap', 'calculate_values', p, columns(recs)),
                         ('stat_value', 'stat_btcl', 'stat_btcu'))
    return Task('seeds', harness, functions=TOOL, expect=['seed 3', 'seed 0', 'seed None'], bounds='3 objects, 2 iterations, every outcome of the draws', witnesses=4)
