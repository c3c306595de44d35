"""P36: columns, counts and combinations of values of record tables."""
import itertools
from checks.common import *
from symx import explore as X

ASSUMPTIONS = [REALS]
U = 'metcalcpy.util.utils'


def missing(v): return isinstance(v, float) and v != v


def columns(n):
    def harness(s):
        m = s.module(U)
        order = pick(s, 'order', [['area', 'area2', 'total'], ['total', 'area2', 'area']])
        recs = [{'area': np.nan if pick(s, f'missing[{i}]', [False, True]) else s.real(f'area[{i}]'), 'area2': s.real(f'other[{i}]'), 'total': s.real(f'total[{i}]')}
                for i in range(n)]
        data = s.table([[r[k] for k in order] for r in recs])
        names = np.array(order)
        col = [r['area'] for r in recs]
        have = [v for v in col if not missing(v)]
        s.reached('complete' if len(have) == n else 'some missing' if have else 'all missing')
        for rm, want in ((False, col), (True, have)):
            got = s.call(m.column_data_by_name, data, names, 'area', rm)
            s.check(not isinstance(got, X.Raised) and got is not None and len(got) == len(want), 'values of the column', info=f'{got!r}')
            if isinstance(got, X.Raised) or got is None or len(got) != len(want):
                continue
            for g, w in zip(got, want):
                if missing(w):
                    s.check(bool(g != g), 'missing values stay missing')
                else:
                    s.check_same(g, w, 'values in record order')
        got = s.call(m.sum_column_data_by_name, data, names, 'area')
        s.check_same(got, sum(have) if have else None, 'sum of the values present')
        got = s.call(m.sum_column_data_by_name, data, names, 'area', False)
        s.check_same(got, sum(have) if len(have) == n else None, 'sum of all values')
        for f in ('column_data_by_name', 'sum_column_data_by_name'):
            got = s.call(getattr(m, f), data, names, 'are')
            s.check(got is None, 'a column the table does not have is missing', info=f'{f}: {got!r}')
    return Task(f'columns[{n}]', harness, functions=[f'{U}.column_data_by_name', f'{U}.sum_column_data_by_name'],
                expect=['complete', 'all missing'] + (['some missing'] if n > 1 else []), bounds=f'{n} records, any values, any of them missing')


def counts(n, stored=int):
    def harness(s):
        m = s.module(U)
        order = pick(s, 'order', [['fcst_lead', 'simple', 'area'], ['area', 'simple', 'fcst_lead']])
        recs = [{'fcst_lead': s.integer(f'lead[{i}]', -1000, 1000), 'simple': s.integer(f'simple[{i}]', -1, 10), 'area': s.real(f'area[{i}]')}
                for i in range(n)] if stored is int else \
            [{'fcst_lead': np.float64(pick(s, f'lead[{i}]', [12, 24])), 'simple': np.float64(pick(s, f'simple[{i}]', [0, 1])), 'area': s.real(f'area[{i}]')} for i in range(n)]
        data = np.empty((n, 3), dtype=object)
        for i, r in enumerate(recs):
            for j, k in enumerate(order):
                data[i, j] = r[k]
        filters = pick(s, 'filters', [{'fcst_lead': 12}, {'simple': 1, 'fcst_lead': 24}, {}])
        want = [r for r in recs if all(bool(r[k] == v) for k, v in filters.items())]
        s.reached('none' if not want else 'all' if len(want) == n else 'some')
        got = s.call(m.nrow_column_data_by_name_value, data, np.array(order), dict(filters))
        s.check(not isinstance(got, X.Raised) and got == len(want), 'number of matching records', info=f'{got!r} expected {len(want)}')
        got = s.call(m.column_data_by_name_value, data, np.array(order), dict(filters))
        s.check(not isinstance(got, X.Raised) and len(got) == len(want), 'matching records', info=f'{got!r}')
        if isinstance(got, X.Raised) or len(got) != len(want):
            return
        for g, w in zip(got, want):
            s.check_same(g[order.index('area')], w['area'], 'matching records in order')
    return Task(f'counts[{n},{stored.__name__}]', harness, functions=[f'{U}.column_data_by_name_value', f'{U}.nrow_column_data_by_name_value'], expect=['none', 'some', 'all'],
                bounds=f'{n} records, any whole numbers')


def combinations(kind, sizes):
    def harness(s):
        m = s.module(U)
        n = [pick(s, f'size[{i}]', v) for i, v in enumerate(sizes)]
        lists = [[s.real(f'value[{i},{j}]') for j in range(k)] for i, k in enumerate(n)]
        arg = {'abcd'[i]: list(v) for i, v in enumerate(lists)} if kind == 'dict' else [list(v) for v in lists]
        got = s.call(m.create_permutations, arg) if kind == 'product' else s.call(m.create_permutations_mv, arg, 0)
        s.check(not isinstance(got, X.Raised), 'does not raise', info=f'{got!r}')
        if isinstance(got, X.Raised):
            return
        used = [v for v in lists if v]
        if kind == 'product':
            want = list(itertools.product(*lists))
        elif len(used) < 2:
            want = used[0] if used else []                # values of a single list stay as they are
        else:
            want = [w[::-1] for w in itertools.product(*used[::-1])]
        s.reached('several' if len(want) > 1 else 'few')
        s.check(len(got) == len(want), 'each combination once', info=f'{len(got)} expected {len(want)}')
        if len(got) != len(want):
            return
        for g, w in zip(got, want):
            if len(used) < 2 and kind != 'product':
                s.check_same(g, w, 'value of the combination')
                continue
            s.check(len(g) == len(w), 'one value of each list')
            for a, b in zip(g, w):
                s.check_same(a, b, 'value of the combination')
        same = all(len(v) == k and all(a is b for a, b in zip(v, o)) for v, k, o in zip(arg.values() if kind == 'dict' else arg, n, lists))
        s.check(same, 'the lists stay as they were')
    name = 'create_permutations' if kind == 'product' else 'create_permutations_mv'
    return Task(f'{kind}{sizes}', harness, functions=[f'{U}.{name}'], expect=['several', 'few'], bounds=f'lists of {sizes} values')


def common(n1, n2):
    def harness(s):
        m = s.module(U)
        a, b = [[s.real(f'{k}[{i}]') for i in range(n)] for k, n in (('a', n1), ('b', n2))]
        want = [x for x in a if any(bool(x == y) for y in b)]
        got = s.call(m.intersection, list(a), list(b))
        s.check(not isinstance(got, X.Raised) and len(got) == len(want), 'values of the first list that the second has', info=f'{got!r}')
        s.reached('some' if want else 'none')
        if isinstance(got, X.Raised) or len(got) != len(want):
            return
        for g, w in zip(got, want):
            s.check_same(g, w, 'in the order of the first list')
    return Task(f'intersection[{n1},{n2}]', harness, functions=[f'{U}.intersection'], expect=['some', 'none'], bounds=f'lists of {n1} and {n2} values')


def tasks(tier):
    out = [columns(n) for n in (1, 2, 3)] + [counts(2), counts(3), counts(2, float)] + [common(2, 2), common(3, 2)]
    out += [combinations('dict', [[1, 2], [0, 1, 2], [1, 3]]), combinations('dict', [[0, 1, 2], [0, 2], [0, 1]]), combinations('list', [[1, 2], [1, 2, 3], [1, 2]]),
            combinations('list', [[1, 2], [1, 2], [1, 2], [1, 2]]), combinations('product', [[1, 2], [1, 2, 3], [1, 2]]), combinations('dict', [[1, 2, 3]]),
            combinations('list', [[1, 3]])]
    if tier != 'quick':
        out += [columns(4), counts(4), combinations('dict', [[0, 1, 2]] * 4), combinations('list', [[1, 2, 3]] * 4), combinations('product', [[0, 1, 2]] * 4), common(3, 3)]
    return out
