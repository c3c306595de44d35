"""P27: ROC points of contingency tables by threshold, and the order of thresholds."""
import pandas as pd
from checks.common import *
from symx import explore as X

ASSUMPTIONS = [REALS]
M = 'metcalcpy.util.ctc_statistics'
OPS = {'<': 1, '<=': 2, '==': 3, '': 3, '>=': 4, '>': 5}


def key(t):
    op = ''.join(c for c in t if c in '<>=')
    v = t[len(op):]
    return v if v[0].isalpha() else float(v), OPS[op]


def frame(s, names, th, cols):
    d = {'fcst_thresh': th}
    for c in names:
        d[c] = np.array(cols[c], dtype=object) if s.symbolic else cols[c]
    return pd.DataFrame(d)


def roc(choices, n, asc, free):
    """free: number of records whose threshold is forked over the choices"""
    def harness(s):
        m = s.module(M)
        th = [pick(s, f'thresh[{i}]', choices) if i < free else choices[i % len(choices)] for i in range(n)]
        names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
        cols = {c: [s.real(f'{c}[{i}]', lo=0) for i in range(n)] for c in names}
        keep = list(th)
        out = s.call(m.calculate_ctc_roc, frame(s, names, th, cols), asc)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        want = sorted(set(keep), key=key, reverse=not asc)
        got = list(out['thresh'])
        s.check(len(got) == len(want) and set(got) == set(want), 'one point per threshold', info=f'{got}')
        s.check([key(t) for t in got] == [key(t) for t in want], 'points in the order of the thresholds', info=f'{got}')
        if len(want) > 1:
            s.reached('several')
        for i, t in enumerate(got):
            rows = [j for j in range(n) if keep[j] == t]
            tot = {c: total([cols[c][j] for j in rows]) for c in names}
            for stat, a, b in (('pody', 'fy_oy', 'fn_oy'), ('pofd', 'fy_on', 'fn_on')):
                exp = None if bool(tot[a] + tot[b] == 0) else half_up(tot[a] / (tot[a] + tot[b]), 7)
                s.check_same(out[stat].iloc[i], exp, stat, info=t)
    return Task(f'roc[{n} records,{",".join(choices)},{"ascending" if asc else "descending"}]', harness, functions=[f'{M}.calculate_ctc_roc', f'{M}.sort_by_thresh'],
                expect=['several'] if n > 1 else [], bounds=f'{n} records with any counts, thresholds among {choices}')


def order(choices, n, asc):
    def harness(s):
        m = s.module(M)
        th = [pick(s, f'thresh[{i}]', choices) for i in range(n)]
        vals = [s.real(f'v[{i}]') for i in range(n)]
        out = s.call(m.sort_by_thresh, frame(s, ['v'], th, {'v': vals}), 'fcst_thresh', asc)
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if isinstance(out, X.Raised):
            return
        got = list(out['fcst_thresh'])
        s.check([key(t) for t in got] == sorted([key(t) for t in th], reverse=not asc), 'order of the thresholds', info=f'{got}')
        s.check(list(out.index) == list(range(n)), 'rows are numbered anew')
        # every record appears once with its own value
        for t in set(th):
            rows = [i for i in range(n) if th[i] == t]
            have = [out['v'].iloc[i] for i in range(n) if got[i] == t]
            s.check(len(have) == len(rows), 'records of a threshold', info=t)
            if len(rows) == 1 and len(have) == 1:
                s.reached('own')
                s.check_same(have[0], vals[rows[0]], 'value of the record', info=t)
    return Task(f'sort[{n} records,{",".join(choices)},{"ascending" if asc else "descending"}]', harness, functions=[f'{M}.sort_by_thresh'], expect=['own'],
                bounds=f'{n} records, thresholds among {choices}')


def tasks(tier):
    out = []
    for asc in (True, False):
        out += [roc(['>=10', '>=5', '>=0.5'], 3, asc, 3), roc(['>5', '>=5', '<5', '<=5', '==5'], 2, asc, 2), roc(['<=-10', '<=-2', '<=3'], 3, asc, 2),
                roc(['10', '9.5', '100'], 2, asc, 2), roc(['>0.1'], 1, asc, 0)]
        out += [order(['>=10', '>=9', '>100', '<-3'], 3, asc), order(['<5', '<=5', '5', '==5', '>=5', '>5'], 3, asc),
                order(['>=0.254', '>0.252', '<0.25395', '>=-0.254', '>2.54e-1'], 3, asc), order(['>=273.15', '>273.16', '<=99999.5', '<100000', '>=1e5'], 2, asc),
                order(['<SFP50', '<=SFP50', '>=SFP50', '>SFP50', '<=SFP10'], 2, asc)]
    if tier != 'quick':
        for asc in (True, False):
            out += [roc(['>=10', '>=5', '>=0.5', '>-1'], 4, asc, 4), order(['<5', '<=5', '>=5', '>5', '>=12', '<-7'], 4, asc)]
    return out
