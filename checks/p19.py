"""P19: the aggregation tool for the economic cost/loss value."""
from checks.common import *
from checks import aggrun, p16, p17
from checks.rng import draws
from symx import explore as X
import itertools

ASSUMPTIONS = [REALS, 'series, threshold and time of each record are symbolic (decided by forking), its counts are any non-negative reals unless the task fixes some',
               'random draws are inputs: every outcome is explored (forked)', 'reading and writing the data files is outside the symbolic run; replays use real files']
TOOL = ['metcalcpy.agg_eclv.AggEclv.calculate_stats_and_ci', 'metcalcpy.util.eclv_statistics.calculate_eclv']


def steps(step):
    out, k = [], 1
    while step * k < 1 - 1e-9:
        out.append(step * k)
        k += 1
    return out


def value(counts, cls, base):
    """list of (cl, V) or None"""
    def spec():
        a, b, c, d = counts
        F, H, sv = div(b, b + d), div(a, a + c), div(a + c, a + b + c + d)
        res = []
        for x in list(cls) + ([sv] if base else []):
            i = len(res)
            while i > 0 and res[i - 1] > x:
                i -= 1
            res.insert(i, x)
        return [(x, (1 - F) - div(sv, 1 - sv) * (1 - x) / x * (1 - H) if x < sv else H - div(1 - sv, sv) * x / (1 - x) * F) for x in res]
    return defined(spec)


def table(recs, line, thr):
    if not recs:
        return None
    if line == 'ctc':
        return tuple(total([r[k] for r in recs]) for k in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on'))
    yes, no = [r for r in recs if r['thresh_i'] > thr], [r for r in recs if not r['thresh_i'] > thr]
    return tuple(total([r[k] for r in part]) for part in (yes, no) for k in ('oy_i', 'on_i'))


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def score(recs, line, thr, cls, base):
    c = table(recs, line, thr)
    return None if c is None else value(c, cls, base)


def records(s, n, line, fields, fixed):
    recs = []
    for i in range(n):
        r = {}
        for k, v in fields.items():
            v = v[i] if isinstance(v, tuple) else v
            r[k] = v[0] if len(v) == 1 else pick(s, f'{k}[{i}]', v)
        for k in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on') if line == 'ctc' else ('oy_i', 'on_i'):
            r[k] = np.float64(fixed[k][i]) if k in fixed and fixed[k][i] is not None else s.real(f'{k}[{i}]', lo=0)
        if line == 'ctc':
            r['total'] = np.float64(7)
        recs.append(r)
    return recs


def label(x):
    try:
        return float(x)
    except ValueError:
        return str(x)


def columns(recs):
    return {k: [r[k] for r in recs] for k in recs[0]}


def tool(name, n, line, fields, series, step=0.4, base=0, iters=1, fixed=None, limit=4, eq=False, circular='False', expect=('value',), alpha=0.2, fixvar=None, second=None):
    fixed = fixed or {}

    def harness(s):
        recs = records(s, n, line, fields, fixed)
        cls = steps(step)
        p = {'line_type': line, 'series_val_1': {k: list(v) for k, v in series.items()}, 'cl_step': step, 'num_iterations': iters, 'num_threads': 1,
             'method': 'perc', 'alpha': alpha, 'random_seed': None, 'event_equal': str(eq), 'equalize_by_indep': 'True', 'fixed_vars_vals_input': {k: {k + '_0': list(v)} for k, v in (fixvar or {}).items()},
             'circular_block_bootstrap': circular, 'indy_var': '', 'indy_vals': [], 'add_base_rate': base}
        with draws(s) as d:
            d.limit = limit
            out = aggrun.run(s, 'metcalcpy.agg_eclv', 'AggEclv', 'calculate_stats_and_ci', p, columns(recs), again=None if second is None else {'append_to_file': second})
        if eq:
            recs = equalized(recs, series, fixvar)
            if not recs:
                s.check(isinstance(out, X.Raised) and 'EmptyDataError' in repr(out) or not isinstance(out, X.Raised) and len(out) == 0, 'no records left', info=f'{out!r}')
                return
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        exp = []
        for pt in itertools.product(*series.values()):
            mine = [r for r in recs if all(label(r[k]) == label(v) for k, v in zip(series, pt))]
            thrs = sorted({r['thresh_i'] for r in mine}) if line == 'pct' else [0]
            exp += [(pt, mine, thr) for thr in thrs]
        if second == 'True':
            exp = exp + exp         # the rows of both runs
        m = len(cls) + base
        s.check(len(out) == m * len(exp), 'one curve per series and threshold', info=f'{len(out)} rows, expected {m * len(exp)}')
        if len(out) != m * len(exp):
            return
        for i, (pt, mine, thr) in enumerate(exp):
            sc = score(mine, line, thr, cls, base)
            s.reached('value' if sc is not None else 'missing')
            for j in range(m):
                o = out.iloc[i * m + j]
                s.check(all(label(out[k].iloc[i * m + j]) == label(v) for k, v in zip(series, pt)) and float(o['thresh_i']) == thr, 'curves are labelled in request order', info=f'{pt} {thr} {list(o)}')
                s.check(float(o['nstats']) == len(mine), 'number of records')
                s.check_same(aggrun.cell(o['y_pnt_i']), sc[j][1] if sc else None, 'value at the cost/loss ratio')
                if sc is not None:
                    s.check_same(aggrun.cell(o['x_pnt_i']), sc[j][0], 'cost/loss ratio')
                if iters == 1:
                    s.check(aggrun.cell(o['stat_btcl']) is None and aggrun.cell(o['stat_btcu']) is None, 'no interval without resampling')
        if iters > 1 and len(exp) == 1 and d.calls:
            pt, mine, thr = exp[0]
            b = max(1, int(len(mine) ** 0.5)) if circular == 'True' else 1
            drawn = p17.starts(d, len(mine), b, len(d.calls) - 1)
            sc = score(mine, line, thr, cls, base)
            if drawn is None or sc is None:
                return
            sims = [score([mine[k] for k in p17.resample(st, len(mine), b)], line, thr, cls, base) for st in drawn]
            for j in range(m):
                low, v, high = p17.interval([x[j][1] if x is not None else None for x in sims], sc[j][1], Fraction(str(alpha)) if s.symbolic else alpha, 'perc')
                s.reached('interval' if low is not None else 'no interval')
                s.check_same(aggrun.cell(out.iloc[j]['stat_btcl']), low, 'lower bound from the resampled records')
                s.check_same(aggrun.cell(out.iloc[j]['stat_btcu']), high, 'upper bound from the resampled records')
    return Task(name, harness, functions=TOOL + (['metcalcpy.bootstrap.bootstrap_and_value'] if iters > 1 else []), expect=list(expect), witnesses=5, max_paths=4000,
                bounds=f'{n} {line} records over {fields}; series {series}; ratios {steps(step)}{" and the base rate" if base else ""}; {iters} iterations', branch_timeout=600)


def equalized(recs, series, fixvar):
    return p16.kept(recs, 'stat_name', series, fixvar or {})


def tasks(tier):
    q = tier == 'quick'
    AB = ['A', 'B']
    one = {'fy_on': [2, 3, 1], 'fn_on': [3, 1, 4]}
    tab = {'fy_oy': [None, 4, 2], 'fy_on': [2, 0, 1], 'fn_oy': [1, 2, 3], 'fn_on': [3, 5, 4]}
    out = [
        tool('contingency counts of two series', 2, 'ctc', {'model': AB}, {'model': AB}, fixed={**one, 'fn_oy': [None, 2]}, expect=['value', 'missing']),
        tool('contingency counts, base rate point', 2, 'ctc', {'model': AB}, {'model': AB}, base=1, fixed={**one, 'fn_oy': [1, 2]}, expect=['value', 'missing']),
        tool('two series variables', 2, 'ctc', {'model': AB, 'fcst_lev': ['10', 'P500']}, {'model': AB, 'fcst_lev': ['P500']}, fixed={**one, 'fn_oy': [1, None]}, expect=['value', 'missing']),
        tool('numeric series values', 2, 'ctc', {'fcst_rad': [1, 10]}, {'fcst_rad': ['10', '1']}, fixed={**one, 'fn_oy': [1, 2]}, step=0.25, expect=['value', 'missing']),
        tool('decimal series values', 2, 'ctc', {'fcst_rad': [0.5, 10.0]}, {'fcst_rad': ['10', '0.5']}, fixed={**one, 'fn_oy': [1, 2]}, step=0.5, expect=['value', 'missing']),
        tool('probability tables', 3, 'pct', {'model': (['A'], ['A'], AB), 'thresh_i': ([0.1], [0.5, 0.1], [0.1, 0.9])}, {'model': AB}, fixed={'on_i': [2, 3, 1], 'oy_i': [None, None, 2]}, expect=['value', 'missing']),
        tool('probability tables, base rate point', 2, 'pct', {'model': ['A'], 'thresh_i': [0.1, 0.5]}, {'model': ['A']}, base=1, fixed={'on_i': [2, 3]}, expect=['value', 'missing']),
        tool('event equalization', 3, 'ctc', {'model': (['A'], AB, AB), 'stat_name': ['ECLV'], 'fcst_valid_beg': (['2020-01-01', '2020-01-02'], ['2020-01-01', '2020-01-02'], ['2020-01-02']),
                                             'fcst_lead': [120000]}, {'model': AB}, fixed={**one, 'fn_oy': [1, 2, 3]}, step=0.5, eq=True),
        tool('event equalization at fixed values', 3, 'ctc', {'model': (['A'], ['B'], AB), 'stat_name': ['ECLV'], 'fcst_valid_beg': ['2020-01-01'], 'vx_mask': (['E', 'W'], ['E', 'W'], ['W']),
                                             'fcst_lead': [120000]}, {'model': AB}, fixed={**one, 'fn_oy': [1, 2, 3]}, step=0.5, eq=True, fixvar={'vx_mask': ['E']}),
        tool('second run appended', 1, 'ctc', {'model': ['A']}, {'model': ['A']}, fixed={**one, 'fn_oy': [1]}, step=0.5, second='True'),
        tool('second run in place of the first', 1, 'ctc', {'model': ['A']}, {'model': ['A']}, fixed={**one, 'fn_oy': [1]}, step=0.5, second='False'),
        tool('interval', 2, 'ctc', {'model': ['A']}, {'model': ['A']}, iters=2, fixed=tab, expect=['interval', 'no interval']),
        tool('interval, three records', 3, 'ctc', {'model': ['A']}, {'model': ['A']}, iters=2, step=0.5, fixed=tab, expect=['interval', 'no interval']),
        tool('interval, circular blocks', 4, 'ctc', {'model': ['A']}, {'model': ['A']}, iters=3, step=0.5, circular='True', limit=5,
             fixed={'fy_oy': [7, 4, 2, 3], 'fy_on': [2, 0, 1, 1], 'fn_oy': [1, 2, 3, 0], 'fn_on': [3, 5, 4, 2]}, expect=['interval', 'no interval']),
        tool('interval with the base rate point', 2, 'ctc', {'model': ['A']}, {'model': ['A']}, iters=2, base=1, fixed={**tab, 'fy_oy': [5, 1]}, expect=['interval']),
        tool('interval, undefined resamples', 2, 'ctc', {'model': ['A']}, {'model': ['A']}, iters=2, step=0.5, fixed={'fy_oy': [None, 0], 'fy_on': [0, 1], 'fn_oy': [2, 0], 'fn_on': [0, 3]}, expect=['no interval']),
        tool('interval of probability tables', 2, 'pct', {'model': ['A'], 'thresh_i': ([0.1], [0.5])}, {'model': ['A']}, iters=2, step=0.5, fixed={'on_i': [2, 3], 'oy_i': [None, 4]}, expect=['value']),
    ]
    out.append(seeded(tab))
    if not q:
        out += [tool('three records of two series', 3, 'ctc', {'model': AB}, {'model': AB}, step=0.25, expect=['value', 'missing'])]
    return out


def seeded(fixed):
    def harness(s):
        recs = records(s, 2, 'ctc', {'model': ['A']}, fixed)
        seed = pick(s, 'seed', [3, 'None', None, 0])
        p = {'line_type': 'ctc', 'series_val_1': {'model': ['A']}, 'cl_step': 0.5, 'num_iterations': 2, 'num_threads': 1, 'method': 'perc', 'alpha': 0.2,
             'random_seed': seed, 'event_equal': 'False', 'equalize_by_indep': 'True', 'fixed_vars_vals_input': {}, 'circular_block_bootstrap': 'False',
             'indy_var': '', 'indy_vals': [], 'add_base_rate': 0}
        p17.reproducible(s, seed, lambda: aggrun.run(s, 'metcalcpy.agg_eclv', 'AggEclv', 'calculate_stats_and_ci', p, columns(recs)),
                         ('x_pnt_i', 'y_pnt_i', 'stat_btcl', 'stat_btcu'))
    return Task('seeds', harness, functions=TOOL, expect=['seed 3', 'seed 0', 'seed None'], bounds='2 records, 2 iterations, every outcome of the draws', witnesses=4)
