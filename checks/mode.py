"""Reference definitions of object-based (MODE) ratios from their names."""
import numpy as np
from checks.common import *

FLAG = {0: {'f': ('fcst_flag', 1), 'o': ('fcst_flag', 0)}, 1: {'s': ('simple_flag', 1), 'c': ('simple_flag', 0)},
        2: {'m': ('matched_flag', 1), 'u': ('matched_flag', 0)}}
PAIRS = ['fsa_asa', 'osa_asa', 'asm_asa', 'asu_asa', 'fsm_fsa', 'fsu_fsa', 'osm_osa', 'osu_osa', 'fsm_asm', 'osm_asm',
         'fsu_asu', 'osu_asu', 'fsa_aaa', 'osa_aaa', 'fsa_faa', 'fca_faa', 'osa_oaa', 'oca_oaa', 'fca_aca', 'oca_aca',
         'fsa_osa', 'osa_fsa', 'aca_asa', 'asa_aca', 'fca_fsa', 'fsa_fca', 'oca_osa', 'osa_oca']
OBJ = ['hits', 'misses', 'fas', 'csi', 'pody', 'far']
NAMES = ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area']


def member(row, code):
    for i, ch in enumerate(code):
        want = FLAG[i].get(ch)
        if want and not (row[NAMES.index(want[0])] == want[1]):
            return False
    return True


def count(rows, code):
    n = 0
    for r in rows:
        if member(r, code):
            n += 1
    return n


def area(rows, code):
    return total([r[5] for r in rows if member(r, code)] or [np.float64('nan')])


def value(rows, what, size):
    """size: count or area; what: 'fsa_asa' or an object score name."""
    if what in PAIRS:
        a, b = what.split('_')
        return div(size(rows, a), size(rows, b))
    sm = lambda: size(rows, 'asm')
    if what == 'hits':
        return sm() / 2
    if what == 'misses':
        return size(rows, 'osu')
    if what == 'fas':
        return size(rows, 'fsu')
    if what == 'csi':
        return div(sm() / 2, sm() / 2 + size(rows, 'asu'))
    if what == 'pody':
        return div(sm() / 2, sm() / 2 + size(rows, 'osu'))
    return div(size(rows, 'fsu'), sm() / 2 + size(rows, 'fsu'))


def make_rows(s, n, types, size, nan):
    rows = []
    for i in range(n):
        t = s.choice(f'type[{i}]', types) if len(types) > 1 else types[0]
        rows.append([f'obj{i}', t, s.integer(f'fcst[{i}]', 0, 1), s.integer(f'simple[{i}]', 0, 1),
                     s.integer(f'matched[{i}]', 0, 1), s.real(f'area[{i}]', nan=nan, lo=0) if size is area else np.float64(i + 1)])
    return rows


def task(mod, fname, what, size, dim, n, nan=False, col='area'):
    def harness(s):
        m = s.module('metcalcpy.util.' + mod)
        rows = make_rows(s, n, ['2d', '3d'] if dim else ['2d'], size, nan)
        names = NAMES[:5] + [col]
        tab = s.table(rows) if s.symbolic else np.array(rows, dtype=object)
        out = s.call(getattr(m, fname), tab, np.array(names))
        sel = [r for r in rows if not dim or r[1] == dim]
        v = defined(lambda: value(sel, what, size))
        s.reached('value' if out is not None else 'none')
        s.check_same(out, s.r7(v), f'{fname}=definition')
    return Task(f'{fname}[{n}{",nan" if nan else ""}]', harness, functions=[f'metcalcpy.util.{mod}.{fname}'],
                bounds=f'{n} object(s), every combination of flags' + (' and of 2d/3d type' if dim else '') + ', any area' * (size is area),
                expect=['value'])
