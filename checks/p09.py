"""P09: area- and volume-weighted ratios of MODE objects."""
from checks.mode import *

ASSUMPTIONS = [REALS, 'objects carry 0/1 flags; up to 2 objects (3 in the thorough tier); a class without objects has no area']
DIMS = [('mode_arearat_statistics', 'arearat_', 'obja', None, 'area'),
        ('mode_2d_arearat_statistics', '2d_arearat_', '2d_obja', '2d', 'area'),
        ('mode_3d_volrat_statistics', '3d_volrat_', '3d_objv', '3d', 'volume')]


def tasks(tier):
    out = []
    q = tier == 'quick'
    for mod, pre, obj, dim, col in DIMS:
        for what in PAIRS + OBJ:
            if what == 'fsu_asu':
                continue        # no such area ratio
            f = 'calculate_' + (pre if what in PAIRS else obj) + what
            for n, nan in ([(2, not dim), (3, False)] if not dim else [(2, False)]) if q else [(2, True), (3, False)]:
                out.append(task(mod, f, what, area, dim, n, nan, col))
    return out
