"""P10: every statistic yields a finite number or "missing", and leaves the process as it found it."""
import ast
from checks.common import *
from symx import core, fn
from checks import p01, p03, p04, p05

ASSUMPTIONS = [REALS, 'one record (quick) or two records (thorough) with every value any real or missing; tables without records '
               '(not for the probability tables)', 'direction errors: the observed wind is fixed']
REPO = '/repo/metcalcpy/util/'


VL = ['total', 'ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar', 'uvffbar', 'uvoobar', 'f_speed_bar', 'o_speed_bar',
      'direction_err', 'ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar', 'fa_speed_bar', 'oa_speed_bar',
      'dir_me', 'dir_mae', 'dir_mse', 'dira_me', 'dira_mae', 'dira_mse']
SL = ['total', 'fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'mae', 'fabar', 'oabar', 'foabar', 'ffabar', 'ooabar']
MODE = ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area']
MODULES = {
    'ctc_statistics': p01.NAMES, 'sl1l2_statistics': SL, 'sal1l2_statistics': SL, 'vl1l2_statistics': VL,
    'vcnt_statistics': VL, 'val1l2_statistics': VL, 'ecnt_statistics': p04.NAMES,
    'rps_statistics': ['total', 'rps', 'rps_comp', 'rps_climo', 'rpss'], 'ssvar_statistics': p04.SNAMES,
    'nbrcnt_statistics': p05.NAMES, 'nbrctc_statistics': p01.NAMES, 'grad_statistics': p05.GNAMES,
    'pstd_statistics': ['total', 'thresh_i', 'oy_i', 'on_i', 'thresh_i.1', 'oy_i.1', 'on_i.1', 'o_bar'],
}
SKIP = {'calculate_economic_value', 'calculate_eclv'}


def functions(mod):
    """(name, takes the aggregation flag) of the statistics of a module, from its current source."""
    t = ast.parse(open(REPO + mod + '.py').read())
    out = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith('calculate_') and n.name not in SKIP:
            a = [x.arg for x in n.args.args]
            if a[:2] == ['input_data', 'columns_names'] and len(a) <= 3:
                out.append((n.name, len(a) == 3))
    return out


def finite(s, out):
    if out is None:
        return True
    if s.symbolic and isinstance(out, core.SymReal):
        return True if out.nan is None else core.SymBool(core.z3.Not(out.nan))
    if core.is_sym(out):
        return True
    try:
        v = float(out)
    except (TypeError, ValueError):
        return False
    return v == v and abs(v) != float('inf')


def task(mod, fname, flag, names, n, aggs):
    def harness(s):
        m = s.module('metcalcpy.util.' + mod)
        rows = rows_of(s, names, n, True, consts={'uobar': np.float64(1), 'vobar': np.float64(-2)} if '_dir_' in fname else None)
        agg = s.choice('aggregated', [False, True]) if flag and len(aggs) > 1 else aggs[0]
        agg = bool(agg == True) if flag else False          # noqa
        s.set_warn('default')
        out = s.call(getattr(m, fname), s.table(rows), np.array(names), *((agg,) if flag else ()))
        w = s.warn_state()
        s.reached('called')
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{out!r}')
        if not isinstance(out, X.Raised):
            s.check(finite(s, out), 'finite or missing', info=f'{out!r}')
        s.check(w != 'error', 'warnings are not left as errors', info=w)
    return Task(f'{mod}.{fname}[{n}]', harness, functions=[f'metcalcpy.util.{mod}.{fname}'], expect=['called'],
                bounds=f'{n} record(s), every value any real or missing', witnesses=3, branch_timeout=400)


def empty(mod, funcs, names):
    """No records at all; the statistic is a symbolic choice."""
    def harness(s):
        m = s.module('metcalcpy.util.' + mod)
        fi = s.choice('function', [f for f, _ in funcs])
        flag = dict(funcs)
        for fname, _ in funcs:
            if fi == fname:
                break
        s.set_warn('default')
        out = s.call(getattr(m, fname), np.empty((0, len(names))), np.array(names), *((True,) if flag[fname] else ()))
        w = s.warn_state()
        s.reached('called')
        s.check(not isinstance(out, X.Raised), 'does not raise', info=f'{fname}: {out!r}')
        if not isinstance(out, X.Raised):
            s.check(finite(s, out), 'finite or missing', info=f'{out!r}')
        s.check(w != 'error', 'warnings are not left as errors', info=w)
    return Task(f'{mod}[no records]', harness, functions=[f'metcalcpy.util.{mod}.{f}' for f, _ in funcs],
                bounds='a table without records', expect=['called'], witnesses=3)


from symx import explore as X       # noqa


def tasks(tier):
    out = []
    for mod, names in MODULES.items():
        fs = functions(mod)
        for f, flag in fs:
            for n in ((1,) if tier == 'quick' else (1, 2)):
                out.append(task(mod, f, flag, names, n, [False, True] if flag else [False]))
        if mod != 'pstd_statistics':
            out.append(empty(mod, fs, names))
    return out
