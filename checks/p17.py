"""P17: bootstrap resamples, confidence intervals and their use by the aggregation tool."""
from checks.common import *
from checks import aggrun, p12, p13
from checks.rng import draws
from symx import explore as X
import itertools

ASSUMPTIONS = [REALS, 'random draws are inputs: every outcome of numpy.random.choice is explored (forked); equal seeds give equal draws',
               'resampling in several processes is outside the bounds', 'reading and writing the data files is outside the symbolic run']
B = 'metcalcpy.bootstrap'


def starts(d, n, b, call):
    """Block starts of each resample as drawn, or None when the draws are laid out in an unknown way."""
    pop, ids, kw = d.calls[call]
    if ids.ndim != 2:
        return None
    blocks = -(-n // b)
    if ids.shape[1] == n:
        return [[int(r[k * b]) for k in range(blocks)] for r in ids]
    if ids.shape[1] == blocks:
        return [[int(x) for x in r] for r in ids]
    return None


def resample(st, n, b):
    return [(s0 + j) % n for k, s0 in enumerate(st) for j in range(b)][:n]


def resampling(n, b, iters, batch, cols=2, limit=None):
    """What the statistic is applied to."""
    def harness(s):
        m = s.module(B)
        data = [[s.real(f'x[{i}][{j}]') if j else np.float64(i) for j in range(cols)] for i in range(n)]
        table = s.table(data)
        seen = []

        def stat(v):
            if v.ndim == 2:
                return [v[0][1]]
            for r in v:
                seen.append(r)
            return [[r[0][1]] for r in v]
        with draws(s) as d:
            d.limit = limit
            out = s.call(m.bootstrap_and_value, table, stat, 0.05, iters, batch, 1, 'perc', True, True, b)
        s.check(not isinstance(out, X.Raised), 'runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(len(seen) == iters, 'as many resamples as requested', info=f'{len(seen)}')
        s.check(len(out.distributions) == iters, 'distribution of all resamples')
        s.check_same(out.value, data[0][1], 'value of the original sample')
        s.check(all(c[0] == n and c[2].get('replace', True) and c[2].get('p') is None for c in d.calls), 'every record can be drawn, with replacement')
        drawn = [starts(d, n, b, c) for c in range(len(d.calls))]
        known = None not in drawn
        flat = [x for c in drawn for x in c] if known else []
        for k, r in enumerate(seen):
            s.check(len(r) == n, 'resamples are as long as the sample')
            ids = [int(x[0]) for x in r]
            for i, x in enumerate(r):
                s.check(all(0 <= ids[i] < n for i in range(len(ids))) and len(x) == cols, 'whole records are resampled')
                for j in range(1, cols):
                    s.check_same(x[j], data[ids[i]][j], 'records are resampled unchanged')
            s.check(all(ids[i] == (ids[i - 1] + 1) % n for i in range(n) if i % b), 'records of a block follow each other (circularly)', info=f'{ids}')
            if known and k < len(flat):
                s.check(ids == resample(flat[k], n, b), 'blocks start at the drawn records', info=f'{ids} drawn {flat[k]}')
        s.reached('several' if len({tuple(int(x[0]) for x in r) for r in seen}) > 1 or iters == 1 else 'same')
    return Task(f'resamples n={n} block={b} iterations={iters} batch={batch}', harness, functions=[f'{B}.bootstrap_and_value'],
                bounds=f'{n} records of {cols} values (symbolic), block length {b}, {iters} iterations in batches of {batch}, every outcome of the {"first " + str(limit) + " " if limit else ""}draws',
                expect=['several'], witnesses=4, max_paths=5000)


def percentile(xs, q):
    """linear interpolation between order statistics; q symbolic or exact"""
    xs = sorted(xs)
    pos = q * (len(xs) - 1)
    lo = 0
    while lo < len(xs) - 1 and pos >= lo + 1:
        lo += 1
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (xs[hi] - xs[lo]) * (pos - lo)


def interval(values, stat, alpha, method):
    """(low, value, high)"""
    if stat is None or method not in ('perc', 'pivotal'):
        return None, None, None
    xs = [x for x in values if x is not None]
    if method == 'perc':
        if len(xs) == 0 or all(bool(x == xs[0]) for x in xs[1:]):
            return None, stat, None
        return percentile(xs, alpha / 2), stat, percentile(xs, 1 - alpha / 2)
    return 2 * stat - percentile(xs, 1 - alpha / 2), stat, 2 * stat - percentile(xs, alpha / 2)


def confidence(k, missing, method, nested, symbolic_alpha=True):
    def harness(s):
        m = s.module(B)
        alpha = s.real('alpha', np=False, lo=0, hi=1) if symbolic_alpha else pick(s, 'alpha', [0.05, 0.1, 0.5])
        if symbolic_alpha:
            s.assume(alpha > 0)
            s.assume(alpha < 1)
        val = lambda name: None if missing and pick(s, f'{name} missing', [False, True]) else s.real(name, np=False)
        stat_val = val('value')
        vals = [val(f'resample[{i}]') for i in range(k)]

        def stat(v):
            if v.ndim == 1:
                return [stat_val]
            return [[x] for x in vals] if nested else list(vals)
        with draws(s):
            np.random.choice = lambda *a, **kw: np.zeros((k, 1), dtype=int)
            data = s.vector([np.float64(3)])
            out = s.call(m.bootstrap_and_value, data, stat, alpha=alpha, num_iterations=k, ci_method=method)
        s.check(not isinstance(out, X.Raised), 'runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        low, v, high = interval(vals, stat_val, alpha if s.symbolic else float(alpha), method)
        s.reached('interval' if low is not None else 'no interval')
        s.check_same(out.value, v, 'value')
        s.check_same(out.lower_bound, low, 'lower bound is the alpha/2 percentile')
        s.check_same(out.upper_bound, high, 'upper bound is the 1-alpha/2 percentile')
        if low is not None and method == 'perc':
            s.check(out.lower_bound <= out.upper_bound, 'bounds are ordered')
    return Task(f'interval of {k} {"possibly missing " if missing else ""}values, {method}{", nested" if nested else ""}', harness,
                functions=[f'{B}.bootstrap_and_value'], expect=['interval', 'no interval'] if method == 'perc' and k > 1 else [],
                bounds=f'{k} resampled statistics, any real{" or missing" if missing else ""}; any alpha in (0,1)', witnesses=6, max_paths=4000)


def results_class():
    def harness(s):
        m = s.module(B)
        lo, v, hi = s.real('low', np=False), s.real('value', np=False), s.real('high', np=False)
        r = s.call(m.BootstrapResults, lo, v, hi)
        a, b = (lo, hi) if lo <= hi else (hi, lo)
        s.check_same(r.lower_bound, a, 'smaller bound first')
        s.check_same(r.upper_bound, b, 'larger bound last')
        s.check_same(r.value, v, 'value kept')
        c = s.real('c', np=False)
        for name, f in [('+', lambda x: x + c), ('-', lambda x: x - c), ('*', lambda x: x * c), ('r+', lambda x: c + x), ('r-', lambda x: c - x),
                        ('r*', lambda x: c * x)]:
            q = s.call(f, r)
            s.check(not isinstance(q, X.Raised), f'{name} runs', info=f'{q!r}')
            if isinstance(q, X.Raised):
                continue
            s.check_same(q.value, f(v), f'value after {name}')
            x, y = f(a), f(b)
            if y < x:
                x, y = y, x
            s.check_same(q.lower_bound, x, f'lower bound after {name}')
            s.check_same(q.upper_bound, y, f'upper bound after {name}')
        s.check_same(s.call(r.error_width), b - a, 'width')
        sgn = lambda x: 1 if x > 0 else -1 if x < 0 else 0
        if v == 0:
            s.check(s.call(r.error_fraction) == float('inf'), 'relative width of zero')
        else:
            s.check_same(s.call(r.error_fraction), (b - a) / v, 'relative width')
        sig = sgn(a) == sgn(b)
        s.check(bool(s.call(r.is_significant)) == sig, 'significant when the interval has one sign')
        s.check_same(s.call(r.get_result), sgn(v) if sig else 0, 'sign of a significant value')
        s.reached('significant' if sig else 'not significant')
    return Task('BootstrapResults', harness, functions=[f'{B}.BootstrapResults'], expect=['significant', 'not significant'],
                bounds='any real bounds, value and operand', witnesses=6)


def data(s, n, line, model='A', tag=''):
    rows = []
    for i in range(n):
        r = {'model': model, 'fcst_lead': 120000, 'fcst_var': 'TMP', 'fcst_valid_beg': f'2020-01-0{i + 1} 00:00:00', 'fcst_init_beg': f'2020-01-0{i + 1} 00:00:00'}
        if line == 'sl1l2':
            r.update(total=np.float64(2 * i + 1), fbar=s.real(f'fbar{tag}[{i}]'), obar=np.float64(3), fobar=np.float64(1), ffbar=np.float64(2),
                     oobar=np.float64(3), mae=np.float64(1))
        else:
            r.update(fy_oy=s.real(f'fy_oy{tag}[{i}]', lo=0), fy_on=np.float64(1 + i), fn_oy=np.float64(2), fn_on=np.float64(5), total=np.float64(20))
        rows.append(r)
    return rows


def columns(rows, stat, shuffle=False):
    rows = rows[::-1] if shuffle else rows
    out = {k: [r[k] for r in rows] for k in rows[0]}
    out['stat_name'] = [stat] * len(rows)
    out['stat_value'] = [None] * len(rows)
    return out


def stat_of(s, line, rows, stat):
    v = (p12.sl if line == 'sl1l2' else p12.ctc)(rows, stat)
    return s.r7(v) if v is not None else None


def tool(name, line, stat, n, iters, alpha, circular, op=None, limit=6):
    """The aggregation tool with resampling."""
    def harness(s):
        rows = {'A': data(s, n, line, 'A')}
        series = {'model': ['A']}
        derived = []
        if op:
            rows['B'] = data(s, n, line, 'B', 'B')
            series = {'model': ['A', 'B']}
            derived = [[f'A TMP {stat}', f'B TMP {stat}', op]]
        al = alpha
        p = aggrun.params(line, [stat], series, derived=derived, indy_vals=['120000'], num_iterations=iters, num_threads=1, alpha=al,
                          circular_block_bootstrap=circular)
        with draws(s) as d:
            d.limit = limit
            if op:
                # the resamples of the single series are not looked at here
                calls = []
                inner = d.many

                def many(nn, size, base=0, **kw):
                    calls.append(1)
                    if len(calls) <= 2:
                        out = np.zeros(size, dtype=np.int64)
                        d.calls.append((nn, out, kw))
                        return out
                    return inner(nn, size, base, **kw)
                d.many = many
            out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci', p, columns(sum(rows.values(), []), stat, shuffle=True))
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        o = out.iloc[len(out) - 1]
        b = max(1, int(n ** 0.5)) if str(circular) == 'True' else 1
        drawn = starts(d, n, b, len(d.calls) - 1)
        if drawn is None:
            return
        sims = [resample(st, n, b) for st in drawn]
        pickd = lambda k, ids: [rows[k][i] for i in ids]
        if op:
            def one(ids):
                x = p13.derive('DIFF' if op == 'DIFF_SIG' else op, [stat_of(s, line, pickd('A', ids), stat)], [stat_of(s, line, pickd('B', ids), stat)])
                return x[0] if x is not None else None
        else:
            def one(ids):
                return stat_of(s, line, pickd('A', ids), stat)
        value = one(range(n))
        vals = [one(ids) for ids in sims]
        low, v, high = interval(vals, value, al if not s.symbolic else Fraction(str(al)), 'perc')
        s.reached('interval' if low is not None else 'no interval')
        if op == 'DIFF_SIG':
            # share of the centred resampled differences within the difference, signed by the better series
            mean = sum(vals) / len(vals)
            share = Fraction(sum(1 for x in vals if bool(p13.absolute(x - mean) <= p13.absolute(value))), len(vals))
            a, b_ = [stat_of(s, line, rows[k], stat) for k in 'AB']
            v = -share if bool(p13.absolute(a) > p13.absolute(b_)) else share
            s.reached('significance 0' if share == 0 else 'significance 1' if share == 1 else 'significance between')
            v = float(v) if not s.symbolic else v
        s.check_same(aggrun.cell(o['stat_value']), v, 'value of all records')
        s.check_same(aggrun.cell(o['stat_btcl']), low, 'lower bound from the resampled statistics')
        s.check_same(aggrun.cell(o['stat_btcu']), high, 'upper bound from the resampled statistics')
    return Task(name, harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci', f'{B}.bootstrap_and_value'], expect=['interval'] + (['significance 0', 'significance between', 'significance 1'] if op == 'DIFF_SIG' else []),
                bounds=f'{n} records per series, {iters} iterations, alpha {alpha}, circular blocks {circular}; every outcome of the first {limit} draws, the rest fixed', witnesses=4, max_paths=4000)


def reproducible(s, seed, run, cols, limit=None):
    """Two runs with equal seeds agree; without a seed the generator is not reset."""
    outs = []
    with draws(s) as d:
        d.limit = limit
        for _ in range(1 if seed in ('None', None) else 2):
            outs.append(run())
    for o in outs:
        s.check(not isinstance(o, X.Raised), 'the tool runs', info=f'{o!r}')
    if any(isinstance(o, X.Raised) for o in outs):
        return
    s.reached(f'seed {seed}')
    for o in outs[1:]:
        s.check(len(o) == len(outs[0]), 'equal seeds, equal results')
        for c in cols:
            for i in range(min(len(o), len(outs[0]))):
                s.check_same(aggrun.cell(o[c].iloc[i]), aggrun.cell(outs[0][c].iloc[i]), 'equal seeds, equal results')
    if seed in ('None', None):
        s.check(all(x is None for x in d.seeds), 'without a seed the generator is not reset')


def seeded(line, stat, n, iters):
    """Equal seeds give equal output."""
    def harness(s):
        rows = data(s, n, line, 'A')
        seed = pick(s, 'seed', [1, 'None', None, 7])
        p = aggrun.params(line, [stat], {'model': ['A']}, indy_vals=['120000'], num_iterations=iters, num_threads=1, random_seed=seed)
        reproducible(s, seed, lambda: aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci', p, columns(rows, stat)),
                     ('stat_value', 'stat_btcl', 'stat_btcu'))
    return Task(f'seeds {line}', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['seed 1', 'seed None'],
                bounds=f'{n} records, {iters} iterations, every outcome of the draws', witnesses=4, max_paths=4000)


def tasks(tier):
    q = tier == 'quick'
    out = [resampling(3, 1, 2, None, limit=5), resampling(2, 1, 3, 2), resampling(2, 1, 3, 1), resampling(4, 2, 1, None), resampling(5, 2, 1, None) if not q else resampling(3, 2, 2, None, limit=5),
           resampling(4, 3, 1, None), resampling(4, 4, 1, None), resampling(3, 3, 2, 1, limit=4), resampling(2, 2, 1, None),
           confidence(2, True, 'perc', False), confidence(3, False, 'perc', True), confidence(3, True, 'perc', True), confidence(4, False, 'perc', False),
           confidence(2, False, 'pivotal', False), confidence(3, False, 'pivotal', True), confidence(2, True, 'bca', False), confidence(1, True, 'perc', True),
           results_class(),
           tool('records of one series, any alpha', 'sl1l2', 'ME', 2, 2, 0.1, 'False'),
           tool('records of one series, circular blocks', 'sl1l2', 'FBAR', 4, 2, 0.05, 'True', limit=4),
           tool('records of one series, blocks by default', 'sl1l2', 'FBAR', 3, 2, 0.5, 'True', limit=5),
           tool('contingency records', 'ctc', 'PODY', 2, 2, 0.2, 'False'),
           tool('difference of two series', 'sl1l2', 'ME', 2, 2, 0.1, 'False', op='DIFF'),
           tool('ratio of two series', 'sl1l2', 'FBAR', 2, 2, 0.1, 'True', op='RATIO'),
           tool('skill score of two series', 'sl1l2', 'FBAR', 2, 2, 0.3, 'True', op='SS'),
           tool('records of one series, no blocks', 'sl1l2', 'FBAR', 4, 2, 0.05, 'False', limit=4),
           tool('no blocks of two series', 'sl1l2', 'ME', 4, 2, 0.1, 'False', op='DIFF', limit=2),
           tool('significance of a difference', 'sl1l2', 'ME', 2, 3, 0.1, 'False', op='DIFF_SIG', limit=2),
           seeded('sl1l2', 'FBAR', 2, 2), seeded('ctc', 'PODY', 2, 2)]
    if not q:
        out += [resampling(3, 1, 3, 2), resampling(5, 3, 1, None), confidence(5, False, 'perc', True), confidence(4, True, 'perc', True),
                tool('three records, three iterations', 'sl1l2', 'ME', 3, 2, 0.1, 'False'), tool('difference, three records', 'sl1l2', 'ME', 3, 2, 0.1, 'False', op='DIFF')]
        for t in out:
            t.max_paths = 30000
    return out
