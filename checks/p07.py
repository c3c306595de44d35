"""P07: multi-category skill score and economic cost/loss value equal their definitions."""
from checks.common import *

ASSUMPTIONS = [REALS, 'multi-category tables with 2 or 3 categories, any numbering of the cells',
               'cost/loss ratios strictly between 0 and 1; one symbolic ratio, or the pair 0.75, 0.25 given unsorted']
MC = 'metcalcpy.util.mcts_statistics'
EC = 'metcalcpy.util.eclv_statistics'
CT = 'metcalcpy.util.ctc_statistics'


def hss_ec(K, n, perm, nan):
    names = ['total', 'n_cat', 'ec_value']
    for k in range(K * K):
        names += [f'i_value_{k}', f'j_value_{k}', f'fi_oj_{k}']

    def harness(s):
        m = s.module(MC)
        rows = []
        ec = s.real('ec', lo=None)
        for i in range(n):
            r = [s.real(f'total[{i}]'), K, ec if i == 0 else s.real(f'ec[{i}]')]
            for k in range(K * K):
                c = perm[k]
                r += [c // K + 1, c % K + 1, s.real(f'c{k}[{i}]', nan=nan, lo=0)]
            rows.append(r)
        tab = s.table(rows) if s.symbolic else np.array(rows, dtype=object)
        out = s.call(m.calculate_mcts_hss_ec, tab, np.array(names))

        def spec():
            C = Cols(rows, names)
            cells = [C[f'fi_oj_{k}'] for k in range(K * K)]
            diag = all_ = 0
            for k in range(K * K):
                all_ = all_ + cells[k]
                if perm[k] // K == perm[k] % K:
                    diag = diag + cells[k]
            return div(diag - ec * all_, all_ - ec * all_)
        v = s.r7(defined(spec))
        s.reached('value' if out is not None else 'none')
        s.check_same(out, v, 'hss_ec=definition')
    return Task(f'hss_ec[{K}cat,{n}{",nan" if nan else ""},{"".join(map(str, perm))}]', harness,
                functions=[f'{MC}.calculate_mcts_hss_ec'], expect=['value', 'none'],
                bounds=f'{K} categories, {n} record(s), cell order {perm}')


def eclv(n, line, base, nan, dup=False, sym=False):
    fixed = base and (n > 1 or dup)

    def harness(s):
        m = s.module(EC)
        if sym:
            c = s.real('cl', np=False)
            s.assume((c > 0) & (c < 1)) if s.symbolic else s.assume(0 < c < 1)
            cls = [c]
        else:
            cls = [0.75, 0.25]
        if line == 'ctc':
            names = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']
            rows = rows_of(s, names, n, nan, lo=0, consts={'fy_on': np.float64(2), 'fn_on': np.float64(3)} if fixed else None)
            thr = None
        else:
            names = ['thresh_i', 'oy_i', 'on_i'] * (2 if dup else 1)
            thr = s.real('thr', np=False)
            rows = [[np.float64(i + j) if fixed and k == 'on_i' else s.real(f'{k}{j}[{i}]', nan=nan and k != 'thresh_i', lo=0) for j, k in enumerate(names)] for i in range(n)]
        out = s.call(m.calculate_eclv, s.table(rows), np.array(names), thr, line, s.vector(cls), base)

        def counts():
            if line == 'ctc':
                C = Cols(rows, names)
                return C['fy_oy'], C['fy_on'], C['fn_oy'], C['fn_on']
            a = b = c_ = d = 0
            z = lambda x: 0 if bool(x != x) else x
            for r in rows:
                for j in range(0, len(names), 3):
                    if r[j] > thr:
                        a, b = a + z(r[j + 1]), b + z(r[j + 2])
                    else:
                        c_, d = c_ + z(r[j + 1]), d + z(r[j + 2])
            return a, b, c_, d

        def spec():
            a, b, c_, d = counts()
            F, H, sv = div(b, b + d), div(a, a + c_), div(a + c_, a + b + c_ + d)
            cl = list(cls) + ([sv] if base else [])
            res = []
            for x in cl:
                i = len(res)
                while i > 0 and res[i - 1] > x:
                    i -= 1
                res.insert(i, x)
            V = []
            for x in res:
                if x < sv:
                    V.append((1 - F) - div(sv, 1 - sv) * (1 - x) / x * (1 - H))
                else:
                    V.append(H - div(1 - sv, sv) * x / (1 - x) * F)
            return a + b + c_ + d, F, H, sv, res, V
        e = defined(spec)
        if e is None or out is None or not isinstance(out, dict):
            s.reached('none')
            s.check_same(out if not isinstance(out, dict) else 1.0, None if e is None else 1.0, 'eclv-defined')
            return
        s.reached('value')
        tot, F, H, sv, cl, V = e
        s.check_same(out['n'], tot, 'n')
        s.check_same(out['F'], s.r7(F), 'F')
        s.check_same(out['H'], s.r7(H), 'H')
        s.check_same(out['s'], s.r7(sv), 's')
        s.check_same(out['vmax'], s.r7(H - F), 'vmax')
        s.check_same(len(out['cl']), len(cl), 'points')
        s.check_same(len(out['V']), len(V), 'points')
        for i in range(len(cl)):
            s.check_same(out['cl'][i], cl[i], 'cl')
            s.check_same(out['V'][i], V[i], 'V')
    return Task(f'eclv[{line}{2 if dup else ""},{n}{",nan" if nan else ""},base={base}{",symbolic ratio" if sym else ""}]', harness,
                functions=[f'{EC}.calculate_eclv', f'{CT}.calculate_economic_value'], expect=['value'] if n > 1 or line == 'ctc' or dup else ['none'],
                bounds=f'{n} record(s), one symbolic cost/loss ratio in (0,1)' if sym else f'{n} record(s), cost/loss ratios 0.75 and 0.25' + (', fixed counts of non-events' if fixed else ''), branch_timeout=600)


def tasks(tier):
    q = tier == 'quick'
    out = []
    for K, n, perm, nan in [(2, 1, (0, 1, 2, 3), True), (2, 2, (3, 1, 0, 2), False), (2, 2, (0, 1, 2, 3), True), (3, 1, tuple(range(9)), False),
                            (3, 2, (4, 1, 2, 8, 0, 5, 6, 7, 3), False)] + \
            ([] if q else [(3, 3, tuple(range(9)), False), (4, 2, tuple(range(16)), False), (2, 3, (1, 0, 3, 2), True)]):
        out.append(hss_ec(K, n, perm, nan))
    for base in (0, 1):
        out += [eclv(1, 'ctc', base, False, sym=True), eclv(1, 'pct', base, False, sym=True), eclv(1, 'ctc', base, True), eclv(2, 'ctc', base, False), eclv(1, 'pct', base, True),
                eclv(2, 'pct', base, False), eclv(1, 'pct', base, False, dup=True)]
        if not q:
            out += [eclv(3, 'ctc', base, False), eclv(3, 'pct', base, False), eclv(2, 'ctc', base, True), eclv(2, 'pct', base, True)]
    return out
