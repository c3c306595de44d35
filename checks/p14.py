"""P14: aggregated field values pool their records by case, weighted by the number of pairs."""
from checks.common import *
from checks import aggrun, p11
from symx import explore as X

ASSUMPTIONS = [REALS, 'complete records with a positive number of pairs', 'case, region and lead of each record are symbolic (forked)']
U = 'metcalcpy.util.utils'
V = ['2020-01-01 00:00:00', '2020-01-02 00:00:00']
mean = ['sl1l2', 'sal1l2', 'vl1l2', 'val1l2', 'grad']
FIELDS = {
    'sl1l2': ['fbar', 'obar', 'fobar', 'ffbar', 'oobar'], 'sal1l2': ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar'],
    'vl1l2': ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar', 'uvffbar', 'uvoobar', 'f_speed_bar', 'o_speed_bar'],
    'val1l2': ['ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar'],
    'grad': ['fgbar', 'ogbar', 'mgbar', 'egbar'],
    'ctc': ['fy_oy', 'fy_on', 'fn_oy', 'fn_on'], 'nbrctc': ['fy_oy', 'fy_on', 'fn_oy', 'fn_on'], 'nbr_ctc': ['fy_oy', 'fy_on', 'fn_oy', 'fn_on'],
    'nbrcnt': ['fbs', 'fss', 'afss', 'ufss', 'f_rate', 'o_rate'], 'nbr_cnt': ['fbs', 'fss', 'afss', 'ufss', 'f_rate', 'o_rate'],
    'ecnt': ['me', 'crps', 'ign', 'me_oerr', 'rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr', 'crpss', 'crpscl',
             'crps_emp', 'crpscl_emp', 'crps_emp_fair', 'spread_md', 'mae', 'mae_oerr', 'n_ge_obs', 'me_ge_obs', 'n_lt_obs', 'me_lt_obs'],
    'rps': ['rps', 'rps_comp', 'rpss'],
}


def pooled(line, recs):
    """Pooled record of a list of records (dicts)."""
    n = npsum([r['total'] for r in recs])
    wm = lambda f: npsum([f(r) * r['total'] for r in recs]) / n
    out = {'total': n}
    if line in ('ctc', 'nbrctc', 'nbr_ctc'):
        out.update({k: npsum([r[k] for r in recs]) for k in FIELDS[line]})
        return out
    for k in FIELDS[line]:
        out[k] = lambda k=k: wm(lambda r: r[k])
    if line in ('nbrcnt', 'nbr_cnt'):
        f, o = (lambda: wm(lambda r: r['f_rate'])), (lambda: wm(lambda r: r['o_rate']))
        out['fss'] = lambda: 1 - div(wm(lambda r: r['fbs']), wm(lambda r: r['fbs'] / (1 - r['fss'])))
        out['afss'] = lambda: div(2 * f() * o(), f() * f() + o() * o())
        out['ufss'] = lambda: Fraction(1, 2) + o() / 2
    if line == 'ecnt':
        for k in ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr'):
            out[k] = lambda k=k: sqrt(wm(lambda r: r[k] * r[k]))
        for d in ('ge', 'lt'):
            out[f'n_{d}_obs'] = npsum([r[f'n_{d}_obs'] for r in recs])
            out[f'me_{d}_obs'] = lambda d=d: div(npsum([r[f'me_{d}_obs'] * r[f'n_{d}_obs'] for r in recs]), out[f'n_{d}_obs'])
        out['crpss'] = lambda: 1 - div(wm(lambda r: r['crps']), wm(lambda r: r['crps'] / (1 - r['crpss'])))
    if line == 'rps':
        out['rpss'] = lambda: 1 - div(wm(lambda r: r['rps']), wm(lambda r: r['rps'] / (1 - r['rpss'])))
    return {k: (defined(v) if callable(v) else v) for k, v in out.items()}


def npsum(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def records(s, line, fields, n, values=True):
    recs = []
    for i in range(n):
        r = {k: (v[0] if len(v) == 1 else pick(s, f'{k}[{i}]', v)) for k, v in fields.items()}
        r['stat_name'], r['stat_value'] = 'X', 0.0
        if line == 'ecnt':
            r['total'] = np.float64(3 + 2 * i)
        else:
            r['total'] = s.real(f'total[{i}]', lo=0)
            s.assume(r['total'] > 0)
        for k in FIELDS[line]:
            r[k] = s.real(f'{k}[{i}]', lo=0 if line in ('ctc', 'nbrctc', 'nbr_ctc', 'ecnt', 'nbrcnt', 'nbr_cnt', 'rps') and k not in ('me', 'ign', 'me_oerr', 'me_ge_obs', 'me_lt_obs') else None)
            if k in ('fss', 'crpss', 'rpss'):
                s.assume(r[k] < 1)
            if k in ('fbs', 'f_rate', 'crps', 'rps'):
                s.assume(r[k] > 0)
        recs.append(r)
    return recs


def ident(r):
    return (r['model'], str(r['fcst_lead']), r['fcst_valid_beg'], r['vx_mask'])


def task(line, n, fields, series, tag=''):
    """series: field -> list of groups, each 'a;b'"""
    vars_ = list(series)
    lead = 'fcst_lead' in series

    def group_of(r):
        """case the record is pooled into, or None"""
        if len(vars_) == 2:
            return ('all', r['fcst_valid_beg'])
        for g in series[vars_[0]]:
            if str(r[vars_[0]]) in g.split(';'):
                return (g, r['fcst_valid_beg']) if lead else (g, r['fcst_valid_beg'], r['fcst_lead'])
        return None

    def harness(s):
        m = s.module(U)
        recs = records(s, line, fields, n)
        frame = s.frame({k: [r[k] for r in recs] for k in recs[0]})
        s.set_warn('default')
        out = s.call(m.aggregate_field_values, {k: list(v) for k, v in series.items()}, frame, line)
        w = s.warn_state()
        s.check(w != 'error', 'warnings are not left as errors', info=w)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        cases, rest = {}, []
        for r in recs:
            k = group_of(r)
            if k is None:
                rest.append(r)
            else:
                cases.setdefault(k, []).append(r)
        got = [dict(zip(out.columns, row)) for row in out.itertuples(index=False)]
        s.check(len(got) == len(rest) + len(cases), 'one record per case, others kept', info=f'{len(got)} records, expected {len(rest) + len(cases)}')
        if len(got) != len(rest) + len(cases):
            return
        s.reached('pooled' if any(len(c) > 1 for c in cases.values()) else 'single')
        for g, r in zip(got, rest):
            s.check(all(g[k] == r[k] for k in ('model', 'fcst_valid_beg', 'vx_mask', 'fcst_lead')), 'other records untouched')
            for k in ['total'] + FIELDS[line]:
                s.check_same(g[k], r[k], 'values of other records untouched')
        have = {}
        for g in got[len(rest):]:
            if len(vars_) == 2:
                key = ('all', g['fcst_valid_beg'])
            elif lead:
                key = ([x for x in series['fcst_lead'] if str(g['fcst_lead']) in x.split(';')] + ['?'])[0], g['fcst_valid_beg']
            else:
                key = (g[vars_[0]], g['fcst_valid_beg'], g['fcst_lead'])
            have[key] = g
        s.check(set(have) == set(cases), 'cases are kept apart and carry the group', info=f'{set(have)} expected {set(cases)}')
        for key, rs in cases.items():
            if key not in have:
                continue
            for k, e in pooled(line, rs).items():
                if e is not None:
                    s.check_same(have[key][k], e, f'{k} pooled over the case')
    return Task(f'aggregate_field_values[{line},{"+".join(vars_)},{n}{tag}]', harness,
                functions=[f'{U}.aggregate_field_values', f'{U}.calc_series_sums'],
                expect=['pooled', 'single'] if n == 2 else ['pooled'],
                bounds=f'{n} records over {fields}, aggregated fields {series}; positive totals' + (' (3, 5)' if line == 'ecnt' else '') + ', all values symbolic', witnesses=5, max_paths=4000)


EW = {'vx_mask': ['EAST;WEST']}


def tasks(tier):
    out = []
    one = {'model': ['A'], 'fcst_lead': [120000], 'fcst_valid_beg': V, 'vx_mask': ['EAST', 'WEST', 'NMT']}
    for line in FIELDS:
        out.append(task(line, 2, one, EW))
    out.append(task('sl1l2', 2, dict(one, fcst_lead=[120000, 240000]), EW, ',leads'))
    out.append(task('ctc', 3, dict(one, vx_mask=['EAST', 'WEST']), EW, ',dates'))
    out.append(task('ctc', 3, dict(one, fcst_valid_beg=V[:1], vx_mask=['EAST', 'WEST', 'NMT', 'FULL']), {'vx_mask': ['EAST;WEST', 'NMT;FULL']}, ',groups'))
    out.append(task('sl1l2', 3, dict(one, vx_mask=['EAST', 'WEST'], fcst_lead=[120000, 240000]),
                    {'vx_mask': ['EAST;WEST'], 'fcst_lead': ['120000;240000']}))
    for line in ('sl1l2', 'ctc', 'rps'):
        out.append(task(line, 2, dict(one, fcst_lead=[120000, 240000, 360000], vx_mask=['EAST']), {'fcst_lead': ['120000;240000']}))
    if tier != 'quick':
        for line in ('sl1l2', 'ctc', 'vl1l2', 'rps'):
            out.append(task(line, 3, dict(one, fcst_lead=[120000, 240000]), EW, ',leads'))
    return out
