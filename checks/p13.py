"""P13: derived curves equal their definitions."""
from checks.common import *
from checks import aggrun
from checks.p12 import sl
from symx import explore as X

ASSUMPTIONS = [REALS, 'reading and writing the data files is outside the symbolic run; replays use real files',
               'equivalence-testing curves are covered by P21']
U = 'metcalcpy.util.utils'

ZERO = ['POFD', 'FAR', 'ESTDEV', 'MAE', 'MSE', 'BCMSE', 'RMSE', 'ME2', 'ME', 'ODDS', 'LODDS', 'VL1L2_RMSVE',
        'PSTD_BRIER', 'PSTD_RELIABILITY', 'NBR_FBS', 'VL1L2_SPEED_ERR', 'NBR_POFD', 'NBR_FAR', 'NBR_ODDS', 'BCRMSE', 'ECNT_ME',
        'ECNT_RMSE', 'ECNT_CRPS', 'ECNT_MAE', 'ECNT_MAE_OERR', 'ECNT_ME_GE_OBS', 'ECNT_ME_LT_OBS', 'E50', 'MAD', 'EIQR']
ONE = ['ACC', 'FBIAS', 'PODY', 'PODN', 'CSI', 'GSS', 'HK', 'HSS', 'ORSS', 'EDS', 'SEDS', 'EDI', 'SEDI', 'BAGSS', 'PR_CORR',
       'SP_CORR', 'KT_CORR', 'MBIAS', 'ANOM_CORR', 'ANOM_CORR_RAW', 'VL1L2_BIAS', 'PSTD_BSS', 'NBR_FSS', 'NBR_AFSS',
       'VAL1L2_ANOM_CORR', 'NBR_ACC', 'NBR_FBIAS', 'NBR_PODY', 'PSTD_ROC_AUC', 'NBR_PODN', 'NBR_CSI', 'NBR_GSS', 'NBR_HK', 'NBR_HSS',
       'ECNT_BIAS_RATIO']
NONE = ['BASER', 'FMEAN', 'FBAR', 'FSTDEV', 'OBAR', 'OSTDEV', 'PSTD_BASER', 'PSTD_RESOLUTION', 'PSTD_UNCERTAINTY',
        'NBR_UFSS', 'NBR_F_RATE', 'NBR_O_RATE', 'NBR_BASER', 'NBR_FMEAN']


def absolute(x): return x if x >= 0 else -x


def derive(op, a, b):
    """op on two lists of values; None where undefined"""
    if a is None or b is None or any(x is None for x in a) or any(x is None for x in b) or len(a) != len(b):
        return None
    if op in ('DIFF', 'DIFF_SIG'):
        return [x - y for x, y in zip(a, b)]
    if op == 'RATIO':
        for y in b:
            if y == 0:
                return None
        return [x / y for x, y in zip(a, b)]
    if op == 'SS':
        for x in a:
            if x == 0:
                return None
        return [(x - y) / x for x, y in zip(a, b)]
    return list(a)


def direct(n1, n2):
    def harness(s):
        m = s.module(U)
        op = pick(s, 'operation', ['DIFF', 'RATIO', 'SS', 'SINGLE', 'DIFF_SIG'])
        mk = lambda k, n: [None if pick(s, f'{k}[{i}] missing', [False, True]) else s.real(f'{k}[{i}]') for i in range(n)]
        a, b = mk('a', n1), mk('b', n2)
        got = s.call(m.calc_derived_curve_value, list(a), list(b), op)
        exp = derive(op, a, b)
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        s.reached('value' if got is not None else 'missing')
        s.check((got is None) == (exp is None), 'missing exactly when undefined', info=f'{got!r}, expected {exp!r}')
        if got is None or exp is None:
            return
        s.check(len(got) == len(exp), 'one value per pair')
        for g, e in zip(got, exp):
            s.check_same(g, e, 'derived value')
    return Task(f'calc_derived_curve_value[{n1},{n2}]', harness, functions=[f'{U}.calc_derived_curve_value'],
                expect=['missing'] + (['value'] if n1 == n2 else []), bounds=f'{n1} and {n2} values, any real or missing, every operation', witnesses=6)


def perfect():
    def harness(s):
        m = s.module(U)
        kind = pick(s, 'kind', ['zero', 'one', 'none'])
        names = {'zero': ZERO, 'one': ONE, 'none': NONE}[kind]
        stat = pick(s, 'statistic', names)
        if pick(s, 'lower case', [False, True]):
            stat = stat.lower()
        a, b, p = s.real('a'), s.real('b'), s.real('p', lo=0, hi=1)
        got = s.call(m.perfect_score_adjustment, a, b, stat, p)
        if kind == 'none':
            exp = None
        else:
            c = 0 if kind == 'zero' else 1
            exp = -p if absolute(a - c) > absolute(b - c) else p
        s.reached(kind)
        s.check_same(got, exp, 'sign tells the better curve')
    return Task('perfect_score_adjustment', harness, functions=[f'{U}.perfect_score_adjustment'], expect=['zero', 'one', 'none'],
                bounds=f'{len(ZERO) + len(ONE) + len(NONE)} statistics, any two values, any p-value', max_paths=3000, witnesses=6)


D = ['2020-01-01 00:00:00', '2020-01-02 00:00:00']


def tool(name, op, stat, na, nb, dup=False, leads=(120000,)):
    """Through the aggregation tool: na records of model A, nb of model B."""
    def harness(s):
        rows = []
        for mod, n in (('A', na), ('B', nb)):
            for i in range(n):
                d = pick(s, f'{mod} date[{i}]', D) if dup else D[i % 2]
                lead = leads[0] if len(leads) == 1 else pick(s, f'{mod} lead[{i}]', leads)
                rows.append({'model': mod, 'fcst_var': 'TMP', 'fcst_lead': lead, 'fcst_valid_beg': d, 'stat_name': stat, 'stat_value': 0.0,
                             'total': np.float64(1 + 2 * i), 'fbar': s.real(f'{mod} fbar[{i}]'), 'obar': s.real(f'{mod} obar[{i}]'),
                             'fobar': np.float64(1), 'ffbar': np.float64(2), 'oobar': np.float64(3), 'mae': np.float64(1)})
        rows = rows[::-1]
        cols = {k: [r[k] for r in rows] for k in rows[0]}
        dn = [f'A TMP {stat}', f'B TMP {stat}', op]
        sign = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'SINGLE': ' ', 'DIFF_SIG': '-'}[op]
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                         aggrun.params('sl1l2', [stat], {'model': ['A', 'B']}, derived=[dn], indy_vals=[str(x) for x in leads]), cols)
        refused = False
        for lead in leads:
            g = [[r for r in rows if r['model'] == mod and r['fcst_lead'] == lead] for mod in 'AB']
            if g[0] and g[1] and op != 'SINGLE':
                refused = refused or any(len({r['fcst_valid_beg'] for r in x}) != len(x) for x in g)
        s.check(isinstance(out, X.Raised) == refused, 'refused exactly when a case has several records', info=f'{out!r}')
        s.reached('refused' if refused else 'accepted')
        if isinstance(out, X.Raised) or refused:
            return
        s.check(len(out) == 3 * len(leads), 'rows of both series and of the derived curve')
        for i, lead in enumerate(leads):
            o = out.iloc[2 * len(leads) + i]
            s.check(str(o['model']).startswith(op + '(A TMP') and str(o['fcst_lead']) == str(lead) and int(o['nstats']) == 0,
                    'derived row is labelled', info=f'{list(o)}')
            v = [sl([r for r in rows if r['model'] == mod and r['fcst_lead'] == lead], stat) for mod in 'AB']
            a = derive(op, [s.r7(v[0]) if v[0] is not None else None], [s.r7(v[1]) if v[1] is not None else None])
            s.reached('value' if a is not None else 'missing')
            e = s.r7(a[0], 5) if a is not None else None
            if op == 'DIFF_SIG' and a is not None:
                # without resampling the p-value is 1
                e = None if stat == 'FBAR' else -1 if absolute(s.r7(v[0])) > absolute(s.r7(v[1])) else 1
            s.check_same(aggrun.cell(o['stat_value']), e, 'derived value of the aggregated series', info=f'lead {lead}')
    return Task(name, harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['refused'] if dup and op != 'SINGLE' else ['accepted'],
                bounds=f'{na} records of the first and {nb} of the second series, values symbolic', witnesses=4)


def grouped(name, op, groups, names, second=False):
    """Derived curve of groups, which it names by their position; records of each member are forked over two cases."""
    def harness(s):
        members = sorted({m for g in groups for m in g.split(':')})
        rows = []
        for mod in members:
            d = pick(s, f'{mod} date', [D[0], D[1], 'both'])
            for i, c in enumerate(D if d == 'both' else [d]):
                rows.append({'model': mod, 'fcst_var': 'TMP', 'fcst_lead': 120000, 'fcst_valid_beg': c, 'stat_name': 'ME', 'stat_value': 0.0,
                             'total': np.float64(1 + 2 * i), 'fbar': s.real(f'{mod} fbar[{i}]'), 'obar': s.real(f'{mod} obar[{i}]'),
                             'fobar': np.float64(1), 'ffbar': np.float64(2), 'oobar': np.float64(3), 'mae': np.float64(1)})
        cols = {k: [r[k] for r in rows] for k in rows[0]}
        p = aggrun.params('sl1l2', ['ME'], {'model': groups}, derived=[] if second else [[f'{n} TMP ME' for n in names] + [op]], indy_vals=['120000'])
        if second:
            p.update(series_val_1={'model': members[:1]}, series_val_2={'model': list(groups)}, list_stat_2=['ME'], fcst_var_val_2={'TMP': ['ME']},
                     derived_series_2=[[f'{n} TMP ME' for n in names] + [op]])
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci', p, cols)
        sets = []
        for n in names:
            g = groups[[x for x in range(len(groups)) if ':' in groups[x]][int(n[-1]) - 1]] if n.startswith('Group') else n
            rs = [r for r in rows if r['model'] in g.split(':')]
            sets.append((rs, len(g.split(':'))))
        refused = any(len(rs) != k * len({r['fcst_valid_beg'] for r in rs}) for rs, k in sets)
        s.check(isinstance(out, X.Raised) == refused, 'refused exactly when the members do not have every case of the group once', info=f'{out!r}')
        s.reached('refused' if refused else 'accepted')
        if isinstance(out, X.Raised) or refused:
            return
        s.check(len(out) == len(groups) + 1 + (1 if second else 0), 'rows of the series and of the derived curve', info=f'{len(out)}')
        o = out.iloc[-1]
        s.check(str(o['model']).startswith(op + '('), 'derived row is labelled', info=f'{list(o)}')
        a = derive(op, *[[s.r7(sl(rs, 'ME'))] for rs, _ in sets])
        s.check_same(aggrun.cell(o['stat_value']), s.r7(a[0], 5) if a is not None else None, 'derived value of the pooled groups')
    return Task(name, harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['accepted', 'refused'],
                bounds=f'series {groups}, each member with any of two cases, values symbolic', witnesses=4)


def several(name, n, fields, series, derived, indy='fcst_lead', points=('120000',), time='fcst_valid_beg', stats=('ME',)):
    """Several derived curves in one run; each record has one combination of the series values."""
    def harness(s):
        rows = []
        for i in range(n):
            r = {'fcst_var': 'TMP', 'fcst_lead': 120000, 'stat_name': 'ME', time: D[i % 2]}
            for k, v in fields.items():
                v = v[i] if isinstance(v, tuple) else v
                r[k] = v[0] if len(v) == 1 else pick(s, f'{k}[{i}]', v)
            r.update({'stat_value': 0.0, 'total': np.float64(1 + 2 * i), 'fbar': s.real(f'fbar[{i}]'), 'obar': s.real(f'obar[{i}]'),
                      'fobar': np.float64(1), 'ffbar': np.float64(2), 'oobar': np.float64(3), 'mae': np.float64(1)})
            rows.append(r)
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                         aggrun.params('sl1l2', list(stats), series, derived=derived, indy=indy, indy_vals=list(points)), {k: [r[k] for r in rows] for k in rows[0]})
        members = lambda c, pt: [r for r in rows if all(str(r[k]) in c for k in series) and r['stat_name'] == c[-1] and str(r[indy]) == pt]
        refused = False
        for a, b, op in derived:
            for pt in points:
                g = [members(c.split(' '), pt) for c in (a, b)]
                if g[0] and g[1] and op != 'SINGLE':
                    refused = refused or any(len({(r[time], r['fcst_lead']) for r in x}) != len(x) for x in g)
        s.check(isinstance(out, X.Raised) == refused, 'refused exactly when a case has several records', info=f'{out!r}')
        s.reached('refused' if refused else 'accepted')
        if isinstance(out, X.Raised) or refused:
            return
        first = len(points) * len(stats)
        for v in series.values():
            first *= len(v)
        s.check(len(out) == first + len(derived) * len(points), 'rows of the series and of each derived curve', info=f'{len(out)}')
        if len(out) != first + len(derived) * len(points):
            return
        k = first
        for a, b, op in derived:
            for pt in points:
                o = out.iloc[k]
                k += 1
                v = [sl(members(c.split(' '), pt), c.split(' ')[-1]) for c in (a, b)]
                s.check(any(str(o[f]).startswith(f'{op}({a}') for f in series) and str(o[indy]) == pt, 'derived row is labelled', info=f'{list(o)}')
                ca, cb = a.split(' '), b.split(' ')
                differ = [f for f in series if not any(x in ca and x in cb for x in series[f])]
                if len(differ) == 1:
                    s.check(all(str(o[f]).startswith(f'{op}({a}') if f in differ else str(o[f]) in ca for f in series), 'the label stands where the components differ',
                            info=f'{list(o)}')
                s.check(str(o['stat_name']) == (ca[-1] if ca[-1] == cb[-1] else f'{ca[-1]},{cb[-1]}'), 'statistics of the components', info=f'{list(o)}')
                d = derive(op, *[[s.r7(x) if x is not None else None] for x in v])
                s.reached('value' if d is not None else 'missing')
                s.check_same(aggrun.cell(o['stat_value']), s.r7(d[0], 5) if d is not None else None, 'derived value of the aggregated series', info=f'{op}({a},{b}) {pt}')
    return Task(name, harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], expect=['accepted', 'value', 'missing'],
                bounds=f'{n} records over {fields}; series {series}; derived curves {derived}', witnesses=4)


def samples(n, draws, prob=False):
    """The function applied to the joined records of both components, once and per resample."""
    def harness(s):
        m = s.module('metcalcpy.agg_stat')
        a = m.AggStat.__new__(m.AggStat)
        cols = ['stat_name', 'total', 'thresh_i', 'oy_i', 'on_i', 'thresh_i.1', 'oy_i.1', 'on_i.1'] if prob else ['stat_name', 'total', 'fbar', 'obar']
        a.column_names = np.array(cols)
        st = [pick(s, f'statistic {k}', ['PSTD_BASER', 'PSTD_UNCERTAINTY'] if prob else ['FBAR', 'OBAR', 'ME']) for k in '12']
        a.statistic = 'fbar'
        op = pick(s, 'operation', ['DIFF', 'RATIO', 'SS'])
        if prob:
            recs = [[{'stat_name': st[k], 'total': np.float64(20), 'thresh_i': np.float64(0.25), 'oy_i': s.real(f'oy{k}[{i}]', lo=1), 'on_i': np.float64(3 + i),
                      'thresh_i.1': np.float64(0.75), 'oy_i.1': np.float64(2 * i + 1), 'on_i.1': np.float64(2 + k)} for i in range(n)] for k in range(2)]
        else:
            recs = [[{'stat_name': st[k], 'total': np.float64(1 + i), 'fbar': s.real(f'fbar{k}[{i}]'), 'obar': s.real(f'obar{k}[{i}]')} for i in range(n)] for k in range(2)]
        line = lambda i: [recs[0][i][c] for c in cols] + [recs[1][i][c] for c in cols] + [op]
        frame = lambda ids: [line(i) for i in ids]

        def want(ids):
            v = []
            for k in range(2):
                x = [recs[k][i] for i in ids]
                if prob:
                    y, z = [sum(r[c] + r[c + '.1'] for r in x) for c in ('oy_i', 'on_i')]
                    mean = y / (y + z)
                    v.append([s.r7(mean if st[k] == 'PSTD_BASER' else mean * (1 - mean))])
                    continue
                tot = sum(int(r['total']) for r in x)
                f, o = sum(r['fbar'] for r in x) / tot, sum(r['obar'] for r in x) / tot
                v.append([s.r7({'FBAR': f, 'OBAR': o, 'ME': f - o}[st[k]])])
            d = derive(op, *v)
            return None if d is None else d[0]
        arr = np.empty((n, 2 * len(cols) + 1), dtype=object)
        for i, r in enumerate(frame(range(n))):
            arr[i, :] = r
        for ids in (None,) + tuple(draws):
            if ids is None:
                got = s.call(a._calc_stats_derived, arr)
            else:
                got = s.call(a._calc_stats_derived, arr[list(ids)][None])
            s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
            if isinstance(got, X.Raised):
                return
            g, e = np.ravel(np.array(got, dtype=object)).tolist(), want(range(n) if ids is None else ids)
            s.reached('value' if e is not None else 'missing')
            s.check(len(g) == 1, 'one value', info=f'{got!r}')
            s.check_same(aggrun.cell(g[0]), e, 'each component with its own statistic', info=f'{st} {op} {ids}')
    return Task(f'joined tables[{n}]' if prob else f'joined records[{n}]', harness, functions=['metcalcpy.agg_stat.AggStat._calc_stats_derived'],
                expect=['value'] + ([] if prob else ['missing']), witnesses=6,
                bounds=f'{n} records per component, statistics of each component among three, resamples {draws}')


def probability(op, stat):
    """Derived curves of probability tables: each table is scored with its own event frequency."""
    def harness(s):
        rows = []
        for mod in 'AB':
            for i in range(2):
                rows.append({'model': mod, 'fcst_var': 'TMP', 'fcst_lead': 120000, 'fcst_valid_beg': D[i], 'stat_name': stat, 'stat_value': 0.0, 'total': np.float64(20),
                             'thresh_i': np.float64(0.25), 'oy_i': s.real(f'{mod} oy[{i}]', lo=0), 'on_i': np.float64(3 + i),
                             'thresh_i.1': np.float64(0.75), 'oy_i.1': np.float64(2 * i + 1), 'on_i.1': np.float64(2 if mod == 'A' else 4)})
        rows = rows[::-1]
        out = aggrun.run(s, 'metcalcpy.agg_stat', 'AggStat', 'calculate_stats_and_ci',
                         aggrun.params('pct', [stat], {'model': ['A', 'B']}, derived=[[f'A TMP {stat}', f'B TMP {stat}', op]], indy_vals=['120000']),
                         {k: [r[k] for r in rows] for k in rows[0]})
        s.check(not isinstance(out, X.Raised), 'the tool runs', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        s.check(len(out) == 3, 'rows of both series and of the derived curve')
        v = []
        for mod in 'AB':
            mine = [r for r in rows if r['model'] == mod]
            y, z = [sum(r[k] + r[k + '.1'] for r in mine) for k in ('oy_i', 'on_i')]
            mean = y / (y + z)
            v.append(s.r7(mean if stat == 'PSTD_BASER' else mean * (1 - mean)))
        s.check_same(aggrun.cell(out.iloc[2]['stat_value']), s.r7(derive(op, v[:1], v[1:])[0], 5), 'derived value of the aggregated series')
    return Task(f'{op} of {stat}', harness, functions=['metcalcpy.agg_stat.AggStat.calculate_stats_and_ci'], bounds='2 tables of two bins of each series', witnesses=4)


def tasks(tier):
    out = [direct(1, 1), direct(2, 2), direct(1, 2), direct(0, 1), perfect(), samples(2, [(1, 1), (1, 0)]), samples(2, [(1, 1)], True)]
    for op in ('DIFF', 'RATIO', 'SS', 'SINGLE', 'DIFF_SIG'):
        for stat in ('FBAR', 'ME'):
            out.append(tool(f'{op} of {stat}', op, stat, 2, 2))
        out.append(tool(f'{op} two leads', op, 'ME', 2, 1, leads=(120000, 240000)))
        out.append(tool(f'{op} repeated cases', op, 'ME', 2, 2, dup=True))
    out += [grouped('DIFF of a series and a group', 'DIFF', ['A', 'B:C'], ['A', 'Group_y1_1']), grouped('RATIO of two groups', 'RATIO', ['A:B', 'C:D'], ['Group_y1_2', 'Group_y1_1']),
            grouped('DIFF of groups on the second axis', 'DIFF', ['B:C', 'A', 'A:B'], ['Group_y2_1', 'Group_y2_2'], True)]
    AB, EW = ['A', 'B'], ['E', 'W']
    out += [probability('DIFF', 'PSTD_BASER'), probability('RATIO', 'PSTD_BASER'), probability('DIFF', 'PSTD_UNCERTAINTY')]
    out += [several('several curves', 3, {'model': AB + ['C']}, {'model': AB}, [['A TMP ME', 'B TMP ME', 'DIFF'], ['B TMP ME', 'A TMP ME', 'RATIO'], ['B TMP ME', 'A TMP ME', 'DIFF']]),
            several('two series variables', 3, {'model': AB, 'vx_mask': EW}, {'model': AB, 'vx_mask': EW}, [['A E TMP ME', 'B E TMP ME', 'DIFF'], ['A E TMP ME', 'A W TMP ME', 'DIFF']]),
            several('initialization times', 3, {'model': AB}, {'model': AB}, [['A TMP ME', 'B TMP ME', 'DIFF']], time='fcst_init_beg'),
            several('other initialization times', 3, {'model': AB}, {'model': AB}, [['A TMP ME', 'B TMP ME', 'DIFF']], time='fcst_init'),
            several('valid times', 3, {'model': AB}, {'model': AB}, [['A TMP ME', 'B TMP ME', 'DIFF']], time='fcst_valid'),
            several('two statistics', 2, {'model': AB, 'stat_name': ['ME', 'FBAR']}, {'model': AB}, [['A TMP FBAR', 'B TMP FBAR', 'DIFF'], ['A TMP ME', 'B TMP ME', 'DIFF']], stats=('FBAR', 'ME')),
            several('curves of two statistics', 2, {'model': AB, 'stat_name': ['ME', 'FBAR']}, {'model': AB}, [['A TMP FBAR', 'A TMP ME', 'DIFF'], ['A TMP FBAR', 'B TMP ME', 'RATIO']], stats=('FBAR', 'ME')),
            several('curve over dates', 3, {'model': AB}, {'model': AB}, [['A TMP ME', 'B TMP ME', 'DIFF']], indy='fcst_valid_beg', points=tuple(D)),
            several('curve over levels', 2, {'model': AB, 'interp_pnts': [1, 9]}, {'model': AB}, [['A TMP ME', 'B TMP ME', 'DIFF']], indy='interp_pnts', points=('9', '1'))]
    if tier != 'quick':
        out += [direct(3, 3)] + [tool(f'{op} longer', op, 'ME', 3, 2, leads=(120000, 240000)) for op in ('DIFF', 'RATIO', 'SS')]
    return out
