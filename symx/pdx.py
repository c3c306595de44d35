"""Small patches that let the real pandas carry symbolic values in object columns."""
import numpy as np
import pandas as pd
from . import npx, core, fn


def install():
    import pandas.core.dtypes.astype as A
    import pandas.core.nanops as nanops
    orig = A._astype_nansafe if hasattr(A, '_astype_nansafe') else A.astype_nansafe

    def astype_nansafe(arr, dtype, copy=True, skipna=False):
        if isinstance(arr, np.ndarray) and arr.dtype == object and npx.has_sym(arr):
            if getattr(dtype, 'kind', '') in 'fiu':
                return np.asarray(npx.asobj(arr).astype(dtype))
            if getattr(dtype, 'kind', '') == 'b':
                return np.asarray(npx.asobj(arr).astype(bool))
            return arr.copy() if copy else arr
        return orig(arr, dtype, copy, skipna) if skipna else orig(arr, dtype, copy)
    if hasattr(A, '_astype_nansafe'):
        A._astype_nansafe = astype_nansafe
    else:
        A.astype_nansafe = astype_nansafe

    oen = nanops._ensure_numeric

    def ensure_numeric(x):
        if core.is_sym(x):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and npx.has_sym(x):
            return x
        return oen(x)
    nanops._ensure_numeric = ensure_numeric

    otn = pd.to_numeric

    def to_numeric(arg, *a, **k):
        if npx.has_sym(arg):
            return arg
        return otn(arg, *a, **k)
    pd.to_numeric = to_numeric

    import pandas.core.dtypes.missing as M
    oi, oa = M._isna, M._isna_array

    def isna(obj, *a, **k):
        if core.is_sym(obj):
            return bool(fn.isnan(obj)) if isinstance(obj, core.SymReal) else False
        return oi(obj, *a, **k)

    def isna_array(values, *a, **k):
        if isinstance(values, np.ndarray) and values.dtype == object and npx.has_sym(values):
            out = np.empty(values.shape, dtype=bool)
            for i in np.ndindex(values.shape):
                out[i] = isna(values[i])
            return out
        return oa(values, *a, **k)
    M._isna, M._isna_array = isna, isna_array

    for cls in (pd.DataFrame, pd.Series):
        cls.to_numpy = _to_numpy(cls.to_numpy)


def _to_numpy(real):
    def to_numpy(self, *a, **k):
        r = real(self, *a, **k)
        if r.dtype == object and type(r) is np.ndarray and npx.has_sym(r):
            return r.view(npx.SymArray)
        return r
    to_numpy.__doc__ = real.__doc__
    return to_numpy


def install_xr():
    """Means of object arrays in xarray without a detour over machine floats."""
    import xarray.core.nanops as N
    o = N._nanmean_ddof_object

    def mean(ddof, value, axis=None, dtype=None, **k):
        if npx.has_sym(np.asarray(value)):
            if ddof:
                core.unsupported('ddof in an object mean')
            return npx.np_nanmean(npx.asobj(np.asarray(value)), axis=axis)
        return o(ddof, value, axis=axis, dtype=dtype, **k)
    if not getattr(o, 'patched', False):
        mean.patched = True
        N._nanmean_ddof_object = mean
