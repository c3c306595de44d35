"""Shared pieces of the property checks."""
from fractions import Fraction
import numpy as np
from symx.run import Task
from symx.harness import Alt
from symx.spec import Undefined, div, log, sqrt, half_up, total, strict_total, defined, Cols

REALS = ('floating point is modelled by exact real arithmetic (plus NaN/inf/zero-division behaviour of '
         'numpy and Python); rounding error of the machine is outside the claim')


COUNTS = {'total', 'total_orig', 'n_ge_obs', 'n_lt_obs'}


def rows_of(s, names, n, nan, lo=None, hi=None, prefix='', consts=None):
    """n rows; beyond five rows only the first and the last are symbolic."""
    consts = consts or {}
    low = lambda k: 0 if k in COUNTS and lo is None else lo      # numbers of pairs are not negative
    if nan == 'mixed':
        # fixed pattern of missing values in the middle: at least two per column
        out = []
        for i in range(n):
            if i in (0, n - 1):
                out.append([consts[k] if k in consts else s.real(f'{prefix}{k}[{i}]', lo=low(k), hi=hi) for k in names])
            else:
                out.append([np.float64(consts[k]) if k in consts else
                            np.float64('nan' if (i + j) % 4 in (0, 1) else 1 + (3 * i + 5 * j) % 7)
                            for j, k in enumerate(names)])
        return out
    if n > 5:
        out = []
        for i in range(n):
            if i in (0, n - 1):
                out.append([consts[k] if k in consts else s.real(f'{prefix}{k}[{i}]', nan=nan, lo=low(k), hi=hi)
                            for k in names])
            else:
                out.append([np.float64(consts.get(k, 1 + (3 * i + 5 * j) % 7)) for j, k in enumerate(names)])
        return out
    return [[consts[k] if k in consts else s.real(f'{prefix}{k}[{i}]', nan=nan, lo=low(k), hi=hi) for k in names]
            for i in range(n)]


def stat_task(pid_mod, fname, names, spec, n, nan, digits=7, extra=(), tag='', lo=None, hi=None, assume=None,
              alt=None, consts=None, **kw):
    """Differential task: module function vs. definition, all values symbolic.

    spec(C, raw) -> value or raises Undefined; rounding is applied here.
    alt: further acceptable definitions.
    """
    names = list(names)

    def harness(s):
        m = s.module(pid_mod)
        rows = rows_of(s, names, n, nan, lo, hi, consts=consts)
        if assume is not None:
            assume(s, rows, names)
        cols = np.array(names)
        out = s.call(getattr(m, fname), s.table(rows), cols, *extra)

        def expected(f):
            v = defined(f, Cols(rows, names))
            return s.r7(v, digits) if v is not None and digits is not None else v
        exp = Alt(*[(lambda f=f: expected(f)) for f in [spec] + list(alt)]) if alt else expected(spec)
        s.reached('value' if out is not None else 'none')
        s.check_same(out, exp, f'{fname}=definition')
    return Task(f'{fname}[{n}x{nan if nan == "mixed" else "nan" if nan else "num"}{tag}]', harness, functions=[f'{pid_mod}.{fname}'],
                bounds=f'{n} row(s)' + (', first and last symbolic' if n > 5 or nan == 'mixed' else '') + f', every column value any real{" or missing" if nan else ""}'
                       + (f', except {consts}' if consts else '')
                       + (f' in [{lo},{hi}]' if lo is not None or hi is not None else ''), **kw)


class Means:
    """Weighted means of a partial-sum table: aggregated tables hold total-weighted sums."""

    def __init__(self, C, agg):
        self.C, self.agg = C, agg

    @property
    def n(self):
        return self.C['total']

    def __getitem__(self, name):
        return div(self.C[name], self.C['total']) if self.agg else self.C[name]


def means_tasks(mod, specs, names, tier, sizes=None, consts=None, **kw):
    """specs: function -> (spec(M), alternatives, needs_flag)"""
    out = []
    if sizes is None:
        sizes = [(1, True, False), (1, True, True), (2, True, True), (6, 'mixed', True), (17, False, True)] if tier == 'quick' else \
                [(1, True, False), (1, True, True), (2, True, True), (3, True, True), (4, False, True), (6, 'mixed', True),
                 (17, False, True), (60, False, True)]
    for f, (spec, alt, flag) in specs.items():
        used = [c for c in names if c in needed(spec)] if callable(spec) else names
        for n, nan, agg in sizes:
            if not flag and agg is False:
                continue
            wrap = lambda g, agg=agg: (lambda C: g(Means(C, agg)))
            fixed = dict(consts or {})
            if n > 5:
                fixed.setdefault('total', np.float64(3))
            kw['consts'] = fixed or None
            out.append(stat_task(mod, f, names, wrap(spec), n, nan, alt=[wrap(a) for a in alt] if alt else None,
                                 extra=(agg,) if flag else (), tag=',agg' if agg else '',
                                 expect=['value', 'none'] if nan is True else ['value'], **kw))
    return out


def needed(spec):
    return ()


def pick(s, name, values):
    """A symbolic choice, decided by forking: returns the concrete value of this path."""
    v = s.choice(name, list(values))
    for x in values[:-1]:
        if v == x:
            return x
    return values[-1]
