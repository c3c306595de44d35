"""P08: counts and ratios of MODE objects."""
from checks.mode import *
import os

ASSUMPTIONS = ['objects carry 0/1 flags; up to 2 objects (3 for the plain ratios) in the quick tier']
DIMS = [('mode_ratio_statistics', '', None), ('mode_2d_ratio_statistics', '2d_', '2d'), ('mode_3d_ratio_statistics', '3d_', '3d')]
MISSING = {'3d_ratio_oca_aca', '3d_ratio_aca_asa'}


def tasks(tier):
    out = []
    q = tier == 'quick'
    for mod, pre, dim in DIMS:
        for what in PAIRS + OBJ:
            f = pre + ('ratio_' if what in PAIRS else 'obj') + what
            if f in MISSING:
                continue
            ns = ([3] if not dim else [2]) if q else ([3, 4] if not dim else [2, 3])
            for n in ns:
                out.append(task(mod, 'calculate_' + f, what, count, dim, n))
    return out
