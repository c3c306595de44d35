"""numpy / math / warnings / statistics / scipy stand-ins seen by the code under test.

Everything not listed here falls through to the real library.  The stand-ins
only differ from the library when symbolic values are involved.
"""
import math as _math
import types
import contextlib
import functools
import statistics as _statistics
import warnings as _warnings
from fractions import Fraction
import numpy as _np
from . import core, fn
from .core import (z3, ctx, Ctx, SymReal, SymBool, SymInt, SymChoice, SYM, is_sym, is_num, lift, zb,
                   unsupported, sym_and, sym_or, Poly, P1, NAN)


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
def has_sym(x, depth=4):
    if isinstance(x, SYM):
        return True
    if isinstance(x, _np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(v, SYM) or (isinstance(v, (list, _np.ndarray)) and has_sym(v, 2)) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(v, depth - 1) for v in x)
    if isinstance(x, dict) and depth:
        return any(has_sym(v, depth - 1) for v in x.values())
    vals = _pd_values(x)
    if vals is not None:
        return has_sym(vals, 1)
    return False


def _pd_values(x):
    m = type(x).__module__
    if m.startswith('pandas.') and hasattr(x, 'to_numpy') and hasattr(x, 'dtypes'):
        try:
            return x.to_numpy()
        except Exception:
            return None
    if m.startswith('xarray.') and hasattr(x, 'dims') and hasattr(x, 'values') and hasattr(x, 'dtype'):
        return x.values if x.dtype == object else None
    return None


def is_floatish(dt):
    if dt is None:
        return False
    if dt in (float, int, _np.float64, _np.float32, _np.int64, 'float', 'float64', 'int', 'f8', 'float32', 'd', 'f'):
        return True
    try:
        return _np.dtype(dt).kind in 'fiu'
    except TypeError:
        return False


def is_intish(dt):
    try:
        return _np.dtype(dt).kind in 'iu'
    except TypeError:
        return False


def is_boolish(dt):
    try:
        return _np.dtype(dt).kind == 'b'
    except TypeError:
        return False


class SymArray(_np.ndarray):
    """object array whose elements are symbolic values or numpy float64 scalars."""
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        pass

    def astype(self, dtype, *a, **k):
        if dtype is object or dtype == 'O':
            return self.copy()
        if dtype is str or (isinstance(dtype, type) and issubclass(dtype, str)):
            if has_sym(self):
                return sarr([x if isinstance(x, SymChoice) else str(x) for x in self.flat], self.shape)
            return _np.asarray(self).astype(dtype)
        if is_boolish(dtype):
            return _np.array([bool(x) for x in self.flat], dtype=bool).reshape(self.shape)
        if has_sym(self):
            if is_intish(dtype):
                return sarr([_to_int(x) for x in self.flat], self.shape)
            return sarr([conv_float(x) for x in self.flat], self.shape)
        return _np.asarray(self).astype(dtype, *a, **k)

    def _base(self):
        return _np.ndarray.view(self, _np.ndarray)

    def all(self, axis=None, **k):
        if axis is None:
            return sym_and([x for x in self.flat]) if has_sym(self) else bool(_np.all(self._base().astype(bool)))
        return along(lambda v: sym_and(list(v)), self, axis)

    def any(self, axis=None, **k):
        if axis is None:
            return sym_or([x for x in self.flat]) if has_sym(self) else bool(_np.any(self._base().astype(bool)))
        return along(lambda v: sym_or(list(v)), self, axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return np_std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return np_var(self, axis=axis, ddof=ddof)

    def max(self, axis=None, **k):
        return np_max(self, axis=axis)

    def min(self, axis=None, **k):
        return np_min(self, axis=axis)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return np_argmin(self, axis=axis)

    def round(self, decimals=0, **k):
        return elementwise(lambda x: fn.round_even(x, decimals))(self)

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis)

    def dot(self, o):
        return np_dot(self, o)

    def _idx(self, i):
        if isinstance(i, _np.ndarray) and i.dtype == object:
            flat = list(i.flat)
            if flat and all(isinstance(v, (SymBool, bool, _np.bool_)) for v in flat):
                return _np.array([bool(v) for v in flat], dtype=bool).reshape(i.shape)
            return _np.array([int(v) for v in flat]).reshape(i.shape)
        if isinstance(i, (SymInt, SymChoice)):
            return int(i)
        if isinstance(i, tuple):
            return tuple(self._idx(v) for v in i)
        if isinstance(i, list) and has_sym(i):
            if all(isinstance(v, (SymBool, bool, _np.bool_)) for v in i):
                return [bool(v) for v in i]
            return [int(v) for v in i]
        return i

    def __getitem__(self, i):
        return _np.ndarray.__getitem__(self, self._idx(i))

    def __setitem__(self, i, v):
        _np.ndarray.__setitem__(self, self._idx(i), v)

    def _rel(self, o, name, sw):
        f = lambda a, b: _relop(name, a, b)
        return elementwise2(f)(self, o)

    def __eq__(self, o):
        return self._rel(o, '__eq__', '__eq__')

    def __ne__(self, o):
        return self._rel(o, '__ne__', '__ne__')

    def __lt__(self, o):
        return self._rel(o, '__lt__', '__gt__')

    def __le__(self, o):
        return self._rel(o, '__le__', '__ge__')

    def __gt__(self, o):
        return self._rel(o, '__gt__', '__lt__')

    def __ge__(self, o):
        return self._rel(o, '__ge__', '__le__')

    def __invert__(self):
        return elementwise(lambda x: ~x if isinstance(x, SymBool) else not x)(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [_np.asarray(i) if isinstance(i, SymArray) else i for i in inputs]
        out = kw.pop('out', None)
        where = kw.get('where', True)
        if method == '__call__' and ufunc.__name__ in UFUNCS and where is True:
            kw.pop('dtype', None)
            kw.pop('casting', None)
            f = UFUNCS[ufunc.__name__]
            ins2 = [_rewrap(i) for i in inputs]
            r = elementwise(f)(ins2[0]) if len(ins2) == 1 else elementwise2(f)(*ins2[:2])
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                _np.ndarray.__setitem__(o, Ellipsis, r)
                return o
            return r
        if method == 'reduce' and ufunc.__name__ in ('add', 'maximum', 'minimum', 'logical_and', 'logical_or'):
            ax = kw.get('axis', 0)
            kd = kw.get('keepdims', False)
            g = {'add': np_sum, 'maximum': np_max, 'minimum': np_min, 'logical_and': np_all,
                 'logical_or': np_any}[ufunc.__name__]
            return g(_rewrap(inputs[0]), axis=ax, keepdims=kd)
        if out is not None:
            kw['out'] = tuple(_np.asarray(o) if isinstance(o, SymArray) else o for o in out)
        r = getattr(ufunc, method)(*ins, **kw)
        return _wrap(r)


def _relop(name, a, b):
    import operator
    if a is None or b is None:
        if name == '__eq__':
            return a is b
        if name == '__ne__':
            return a is not b
    r = getattr(operator, name)(a, b)
    return r


def _rewrap(i):
    if isinstance(i, _np.ndarray) and i.dtype == object and not isinstance(i, SymArray):
        return i.view(SymArray)
    return i


def _wrap(r):
    if isinstance(r, _np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(_wrap(x) for x in r)
    if isinstance(r, list):
        return [_wrap(x) if isinstance(x, _np.ndarray) else x for x in r]
    return r


def sarr(items, shape=None):
    items = list(items)
    a = _np.empty(len(items), dtype=object)
    for i, v in enumerate(items):
        a[i] = v
    if shape is not None:
        a = a.reshape(shape)
    return a.view(SymArray)


def simplify_arr(a):
    """Back to a machine array when nothing symbolic is left."""
    if isinstance(a, SymArray) and not has_sym(a):
        flat = list(a.flat)
        if flat and all(isinstance(v, (bool, _np.bool_)) for v in flat):
            return _np.array(flat, dtype=bool).reshape(a.shape)
    return a


def conv_float(x):
    """np.float64(x) for one element."""
    if isinstance(x, SymReal):
        return SymReal(x.num, x.den, x.nan, True)
    if isinstance(x, SymInt):
        return x.real()
    if isinstance(x, SymChoice):
        x = x.concrete()
    if isinstance(x, SymBool):
        return _np.float64(bool(x))
    if isinstance(x, Fraction):
        return lift(x, True)
    return _np.float64(x) if x is not None else NAN


def _to_int(x):
    if isinstance(x, SymReal):
        return fn.trunc(x)
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymChoice):
        return int(x.concrete())
    return int(x)


def asobj(x):
    """Any nested data as an object SymArray."""
    if isinstance(x, SymArray):
        return x
    v = _pd_values(x)
    if v is not None:
        x = v
    if isinstance(x, _np.ndarray):
        return x.astype(object).view(SymArray)
    if isinstance(x, SYM):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    if isinstance(x, (list, tuple)):
        subs = [asobj(v) if isinstance(v, (list, tuple, _np.ndarray)) else v for v in x]
        if subs and all(isinstance(v, _np.ndarray) for v in subs) and len({v.shape for v in subs}) == 1:
            out = _np.empty((len(subs),) + subs[0].shape, dtype=object)
            for i, v in enumerate(subs):
                out[i] = v
            return out.view(SymArray)
        return sarr(subs)
    if hasattr(x, '__iter__') and not isinstance(x, (str, dict)):
        return sarr(list(x))
    a = _np.empty((), dtype=object)
    a[()] = x
    return a.view(SymArray)


def unwrap0(a):
    if isinstance(a, _np.ndarray) and a.shape == () and a.dtype == object:
        return a.item()
    return a


def elementwise(f):
    def g(x, *rest, **kw):
        a = asobj(x)
        r = sarr([f(v, *rest) for v in a.flat], a.shape)
        return unwrap0(simplify_arr(r))
    return g


def elementwise2(f):
    def g(x, y, *rest, **kw):
        a, b = asobj(x), asobj(y)
        ba, bb = _np.broadcast_arrays(a.view(_np.ndarray), b.view(_np.ndarray))
        r = sarr([f(u, v) for u, v in zip(ba.flat, bb.flat)], ba.shape)
        return unwrap0(simplify_arr(r))
    return g


def along(f, a, axis, keepdims=False):
    a = asobj(a)
    if axis is None:
        r = f(list(a.flat))
        if keepdims:
            return sarr([r], (1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        axes = [x % a.ndim for x in axis]
        rest = [i for i in range(a.ndim) if i not in axes]
        b = a.view(_np.ndarray).transpose(rest + axes)
        b = b.reshape(b.shape[:len(rest)] + (-1,))
        r = along(f, b.view(SymArray), -1)
        if keepdims:
            sh = [1 if i in axes else n for i, n in enumerate(a.shape)]
            return asobj(r).reshape(sh)
        return r
    b = _np.moveaxis(a.view(_np.ndarray), axis, -1)
    out = [f(list(b[i])) for i in _np.ndindex(*b.shape[:-1])]
    if out and isinstance(out[0], (list, _np.ndarray)):
        r = asobj(out).reshape(b.shape[:-1] + (len(out[0]),))
        return _np.moveaxis(r, -1, axis)
    r = sarr(out, b.shape[:-1])
    if keepdims:
        r = _np.expand_dims(r, axis)
    return unwrap0(simplify_arr(r))


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def _npnum(x):
    return x if is_sym(x) else (_np.float64(x) if not isinstance(x, Fraction) else lift(x, True))


def lsum(xs):
    """Sum, named by a fresh variable when long (keeps later polynomials short)."""
    s = _np.float64(0)
    for v in xs:
        s = s + fn._norm(v)
    if isinstance(s, SymReal) and len(s.num.t) > 1 and s.den.is_const():
        s = fn.let(s)
    if isinstance(s, SymReal):
        s = SymReal(s.num, s.den, s.nan, True)
    return s


def np_sum(a, axis=None, keepdims=False, **kw):
    return along(lsum, a, axis, keepdims)


def np_nansum(a, axis=None, keepdims=False, **kw):
    return along(lambda v: lsum([fn.masked(x) for x in v]), a, axis, keepdims)


def np_mean(a, axis=None, keepdims=False, **kw):
    def f(v):
        if not v:
            _warnings.warn('Mean of empty slice.', RuntimeWarning)
            return NAN
        return lsum(v) / len(v)
    return along(f, a, axis, keepdims)


def _drop_nan(v):
    return [x for x in v if not bool(fn.isnan(x))]


def np_nanmean(a, axis=None, keepdims=False, **kw):
    def f(v):
        v = _drop_nan(v)
        if not v:
            core.raise_or_warn('mean', 'Mean of empty slice')
            return NAN
        return lsum(v) / len(v)
    return along(f, a, axis, keepdims)


def _var(v, ddof):
    n = len(v)
    m = lsum(v) / n
    s = lsum([(x - m) * (x - m) for x in v])
    if n - ddof <= 0:
        core.raise_or_warn('dof', 'Degrees of freedom <= 0 for slice')
        if is_sym(s):
            return NAN
    return s / _np.float64(n - ddof)


def np_var(a, axis=None, ddof=0, keepdims=False, **kw):
    return along(lambda v: _var(v, ddof), a, axis, keepdims)


def np_std(a, axis=None, ddof=0, keepdims=False, **kw):
    return along(lambda v: fn.sqrt(_var(v, ddof)), a, axis, keepdims)


def np_nanvar(a, axis=None, ddof=0, keepdims=False, **kw):
    return along(lambda v: _var(_drop_nan(v), ddof) if _drop_nan(v) else NAN, a, axis, keepdims)


def np_nanstd(a, axis=None, ddof=0, keepdims=False, **kw):
    return along(lambda v: fn.sqrt(_var(_drop_nan(v), ddof)) if _drop_nan(v) else NAN, a, axis, keepdims)


def _red(f):
    def g(v):
        if not v:
            raise ValueError('zero-size array to reduction operation which has no identity')
        return functools.reduce(f, v)
    return g


def np_max(a, axis=None, keepdims=False, **kw):
    return along(_red(fn.maximum), a, axis, keepdims)


def np_min(a, axis=None, keepdims=False, **kw):
    return along(_red(fn.minimum), a, axis, keepdims)


def np_nanmax(a, axis=None, keepdims=False, **kw):
    return along(_red(fn.fmax), a, axis, keepdims)


def np_nanmin(a, axis=None, keepdims=False, **kw):
    return along(_red(fn.fmin), a, axis, keepdims)


def np_argmax(a, axis=None, **kw):
    def f(v):
        b = 0
        for i in range(1, len(v)):
            if v[i] > v[b]:
                b = i
        return b
    r = along(f, a, axis)
    return _np.asarray(r).astype(int) if isinstance(r, _np.ndarray) else r


def np_argmin(a, axis=None, **kw):
    def f(v):
        b = 0
        for i in range(1, len(v)):
            if v[i] < v[b]:
                b = i
        return b
    r = along(f, a, axis)
    return _np.asarray(r).astype(int) if isinstance(r, _np.ndarray) else r


def np_all(a, axis=None, keepdims=False, **kw):
    return along(lambda v: sym_and(v) if any(is_sym(x) for x in v) else all(bool(x) for x in v), a, axis, keepdims)


def np_any(a, axis=None, keepdims=False, **kw):
    return along(lambda v: sym_or(v) if any(is_sym(x) for x in v) else any(bool(x) for x in v), a, axis, keepdims)


def np_prod(a, axis=None, **kw):
    return along(lambda v: functools.reduce(lambda x, y: x * y, v, _np.float64(1)), a, axis)


def np_cumsum(a, axis=None, **kw):
    def f(v):
        out, s = [], _np.float64(0)
        for x in v:
            s = s + x
            out.append(s)
        return out
    if axis is None:
        return sarr(f(list(asobj(a).flat)))
    return along(f, a, axis)


def np_median(a, axis=None, **kw):
    def f(v):
        if any(bool(fn.isnan(x)) for x in v):
            return NAN
        s = sym_sorted(v)
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    return along(f, a, axis)


def np_nanmedian(a, axis=None, **kw):
    return along(lambda v: np_median(_drop_nan(v)) if _drop_nan(v) else NAN, a, axis)


def np_quantile(a, q, axis=None, scale=1, method='linear', interpolation=None, **kw):
    if interpolation is not None:
        method = interpolation

    def one(v, p):
        s = sym_sorted(v)
        n = len(s)
        if is_sym(p):
            if bool(p < 0) or bool(p > scale):
                raise ValueError('Percentiles must be in the range [0, 100]')
            pos = p / scale * (n - 1)
            lo = 0
            while lo < n - 1 and bool(pos >= lo + 1):
                lo += 1
        else:
            pos = core.frac(p) / scale * (n - 1)
            lo = pos.numerator // pos.denominator
        hi = min(lo + 1, n - 1)
        w = pos - lo
        if method == 'lower':
            return s[lo]
        if method == 'higher':
            return s[hi if w else lo]
        if method == 'nearest':
            return s[lo if w < Fraction(1, 2) else hi]
        if method == 'midpoint':
            return (s[lo] + s[hi if w else lo]) / 2
        if method != 'linear':
            unsupported(f'quantile method {method}')
        return s[lo] + (s[hi] - s[lo]) * (w if is_sym(w) else lift(w, True))

    def f(v):
        if any(bool(fn.isnan(x)) for x in v):
            return NAN
        if isinstance(q, (list, tuple, _np.ndarray)):
            return [one(v, p) for p in q]
        return one(v, q)
    r = along(f, a, axis)
    return asobj(r) if isinstance(r, list) else r


def np_percentile(a, q, axis=None, **kw):
    return np_quantile(a, q, axis=axis, scale=100, **kw)


def sym_sorted(v, key=None, reverse=False):
    return sorted(v, key=key, reverse=reverse)


def _keynan(x):
    return x


def np_sort(a, axis=-1, **kw):
    def f(v):
        nn = _drop_nan(v) if not isinstance(v[0] if v else 0, (str, SymChoice)) else v
        return sorted(nn) + [NAN] * (len(v) - len(nn))
    if axis is None:
        return sarr(f(list(asobj(a).flat)))
    return along(f, a, axis)


def np_argsort(a, axis=-1, **kw):
    a = asobj(a)
    if a.ndim != 1:
        unsupported('argsort of a multi-dimensional symbolic array')
    v = list(a.flat)
    return _np.array(sorted(range(len(v)), key=lambda i: v[i]), dtype=int)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    v = list(asobj(a).flat)
    order = sorted(range(len(v)), key=lambda i: v[i])
    groups = []
    for i in order:
        if groups and v[groups[-1][0]] == v[i]:
            groups[-1].append(i)
        else:
            groups.append([i])
    out = [sarr([v[g[0]] for g in groups])]
    if return_index:
        out.append(_np.array([min(g) for g in groups], dtype=int))
    if return_inverse:
        inv = _np.zeros(len(v), dtype=int)
        for k, g in enumerate(groups):
            inv[g] = k
        out.append(inv)
    if return_counts:
        out.append(_np.array([len(g) for g in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def np_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return np_mean(a, axis=axis)
    a, w = asobj(a), asobj(weights)
    if axis is None or a.ndim == 1:
        num = lsum([x * y for x, y in zip(a.flat, w.flat)])
        return num / lsum(list(w.flat))
    if w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    num = np_sum(a * w, axis=axis)
    den = np_sum(elementwise2(lambda x, y: x)(w, a) if w.shape != a.shape else w, axis=axis)
    return num / den


def np_dot(a, b):
    a, b = asobj(a), asobj(b)
    if a.ndim == 1 and b.ndim == 1:
        return lsum([x * y for x, y in zip(a, b)])
    return _wrap(_np.dot(_np.asarray(a), _np.asarray(b)))


def np_matmul(a, b):
    return np_dot(a, b)


def np_where(cond, *xy):
    if not xy:
        c = asobj(cond)
        return _np.where(_np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape))
    x, y = xy
    c, a, b = _np.broadcast_arrays(*[asobj(v).view(_np.ndarray) for v in (cond, x, y)])
    r = sarr([(u if bool(k) else v) for k, u, v in zip(c.flat, a.flat, b.flat)], c.shape)
    return unwrap0(r)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        unsupported('np.interp period')
    xp, fp = list(asobj(xp)), list(asobj(fp))

    def one(v):
        if bool(fn.isnan(v)):
            return NAN
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        # numpy: binary search for the last xp <= v
        lo, hi = 0, len(xp)
        while lo < hi:
            mid = (lo + hi) // 2
            if v >= xp[mid]:
                lo = mid + 1
            else:
                hi = mid
        j = lo - 1
        if j == len(xp) - 1:
            return fp[j]
        if v == xp[j]:
            return fp[j]
        return (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j]) * (v - xp[j]) + fp[j]
    return elementwise(one)(x)


def np_diff(a, n=1, axis=-1, **kw):
    a = asobj(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def np_clip(a, lo=None, hi=None, **kw):
    lo = kw.get('a_min', lo)
    hi = kw.get('a_max', hi)

    def f(x):
        if lo is not None and x < lo:
            return lo
        if hi is not None and x > hi:
            return hi
        return x
    return elementwise(f)(a)


def np_isin(a, b, **kw):
    vals = list(asobj(b).flat)
    inv = kw.get('invert', False)

    def member(x):
        eq = [x == v for v in vals]
        known = [bool(e) for e in eq if not isinstance(e, SymBool)]
        rest = [e for e in eq if isinstance(e, SymBool)]
        r = True if any(known) else sym_or(rest) if rest else False
        return (~r if isinstance(r, SymBool) else not r) if inv else r
    r = elementwise(member)(a)
    if isinstance(r, _np.ndarray) and not has_sym(r):
        return _np.asarray(r).astype(bool)
    return r


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return elementwise2(lambda x, y: abs(x - y) <= atol + rtol * abs(y))(a, b)


def np_array_equal(a, b, **kw):
    a, b = asobj(a), asobj(b)
    if a.shape != b.shape:
        return False
    return bool(sym_and([x == y for x, y in zip(a.flat, b.flat)]))


def np_corrcoef(x, y=None, **kw):
    if y is None:
        unsupported('corrcoef of a matrix')
    x, y = list(asobj(x)), list(asobj(y))
    n = len(x)
    mx, my = lsum(x) / n, lsum(y) / n
    sxy = lsum([(a - mx) * (b - my) for a, b in zip(x, y)])
    sxx = lsum([(a - mx) * (a - mx) for a in x])
    syy = lsum([(b - my) * (b - my) for b in y])
    r = sxy / fn.sqrt(sxx) / fn.sqrt(syy)
    one = _np.float64(1)
    return asobj([[one, r], [r, one]])


def np_linspace(*a, **k):
    return unsupported('linspace of symbolic bounds')


def np_nan_to_num(x, copy=True, nan=0.0, **k):
    return elementwise(lambda v: fn.masked(v) if nan == 0.0 else (nan if bool(fn.isnan(v)) else v))(x)


def np_count_nonzero(a, axis=None, **k):
    return along(lambda v: sum(1 for x in v if bool(x)), a, axis)


def np_convolve(a, v, mode='full'):
    a, v = list(asobj(a)), list(asobj(v))
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        full.append(lsum([a[i] * v[k - i] for i in range(max(0, k - m + 1), min(n, k + 1))]))
    if mode == 'full':
        return sarr(full)
    if mode == 'valid':
        return sarr(full[m - 1:n])
    s = (m - 1) // 2
    return sarr(full[s:s + n])


def np_cross(*a, **k):
    return unsupported('np.cross')


def m_sum(it, start=0):
    xs = list(it)
    if not has_sym(xs):
        return sum(xs, start)
    if isinstance(xs[0], _np.ndarray):
        return sum(xs, start)
    s = start
    for v in xs:
        s = s + fn._norm(v)
    if isinstance(s, SymReal) and len(s.num.t) > 3 and s.den.is_const():
        s = fn.let(s)
    return s


UFUNCS = {n: getattr(fn, n) for n in (
    'sqrt', 'log', 'log10', 'log1p', 'exp', 'sin', 'cos', 'tan', 'arctan', 'arctan2', 'tanh', 'arctanh',
    'degrees', 'radians', 'floor', 'ceil', 'rint', 'square', 'fabs', 'absolute', 'isnan', 'isinf',
    'isfinite', 'sign', 'add', 'subtract', 'multiply', 'divide', 'negative', 'maximum', 'minimum',
    'fmax', 'fmin', 'hypot', 'power')}
UFUNCS.update({'true_divide': fn.divide, 'rad2deg': fn.degrees, 'deg2rad': fn.radians,
               'remainder': fn.mod, 'mod': fn.mod, 'abs': fn.absolute, 'trunc': fn.trunc,
               'logical_not': lambda x: SymBool(z3.Not(zb(x))) if is_sym(x) else not x,
               'invert': lambda x: ~x if isinstance(x, SymBool) else not x,
               'logical_and': lambda a, b: sym_and([a, b]) if is_sym(a) or is_sym(b) else bool(a and b),
               'logical_or': lambda a, b: sym_or([a, b]) if is_sym(a) or is_sym(b) else bool(a or b),
               'bitwise_and': lambda a, b: sym_and([a, b]) if is_sym(a) or is_sym(b) else a & b,
               'bitwise_or': lambda a, b: sym_or([a, b]) if is_sym(a) or is_sym(b) else a | b,
               'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
               'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
               'equal': lambda a, b: _relop('__eq__', a, b), 'not_equal': lambda a, b: _relop('__ne__', a, b)})
_TWO = {'arctan2', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'fmax', 'fmin',
        'hypot', 'power', 'remainder', 'mod', 'logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'greater',
        'greater_equal', 'less', 'less_equal', 'equal', 'not_equal'}

REDUCERS = {'sum': np_sum, 'nansum': np_nansum, 'mean': np_mean, 'nanmean': np_nanmean, 'var': np_var,
            'std': np_std, 'nanvar': np_nanvar, 'nanstd': np_nanstd, 'max': np_max, 'amax': np_max, 'min': np_min,
            'amin': np_min, 'nanmax': np_nanmax, 'nanmin': np_nanmin, 'argmax': np_argmax, 'argmin': np_argmin,
            'all': np_all, 'any': np_any, 'prod': np_prod, 'cumsum': np_cumsum, 'median': np_median,
            'nanmedian': np_nanmedian, 'quantile': np_quantile, 'percentile': np_percentile, 'sort': np_sort,
            'argsort': np_argsort, 'unique': np_unique, 'average': np_average, 'dot': np_dot, 'matmul': np_matmul,
            'interp': np_interp, 'diff': np_diff, 'clip': np_clip, 'isin': np_isin, 'in1d': np_isin,
            'isclose': np_isclose, 'array_equal': np_array_equal, 'corrcoef': np_corrcoef,
            'nan_to_num': np_nan_to_num, 'count_nonzero': np_count_nonzero, 'convolve': np_convolve,
            'linspace': np_linspace}


class Proxy(types.ModuleType):
    pass


class NumpyProxy(Proxy):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['random'] = RandomProxy()

    def __getattr__(self, name):
        real = getattr(_np, name)      # AttributeError exactly when numpy has none
        f = self._make(name, real)
        self.__dict__[name] = f
        return f

    def _make(self, name, real):
        if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
            def creator(x, dtype=None, *a, **k):
                if has_sym(x):
                    o = asobj(x)
                    o = o.copy() if name == 'array' else o
                    if dtype is not None and dtype is not object:
                        return o.astype(dtype)
                    flat = list(o.flat)
                    if any(isinstance(v, SymReal) for v in flat) and all(
                            isinstance(v, (SymReal, SymInt)) or is_num(v) for v in flat):
                        return o.astype(float)
                    return o
                if isinstance(x, SymArray):
                    return asobj(x).copy() if dtype in (None, object) else asobj(x).astype(dtype)
                return real(x, dtype, *a, **k) if dtype is not None else real(x, *a, **k)
            return creator
        if name in ('zeros', 'empty', 'ones', 'full'):
            def filled(shape, *a, **k):
                if name == 'full':
                    fill = a[0] if a else k.pop('fill_value')
                    a = a[1:]
                dtype = a[0] if a else k.get('dtype', None)
                if Ctx.cur is not None and (dtype is None or (is_floatish(dtype) and not is_intish(dtype)) or
                                            dtype is object):
                    shp = (shape,) if isinstance(shape, (int, _np.integer)) else tuple(shape)
                    n = int(_np.prod(shp)) if shp else 1
                    if name == 'full':
                        v = conv_float(fill) if is_num(fill) and dtype is not object else fill
                    elif dtype is object:
                        v = None if name == 'empty' else (0 if name == 'zeros' else 1)
                    else:
                        v = _np.float64({'zeros': 0, 'empty': 0, 'ones': 1}[name])
                    return sarr([v] * n, shp)
                return real(shape, *( [fill] if name == 'full' else []), *a, **k)
            return filled
        if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            def like(x, *a, **k):
                if has_sym(x) or isinstance(x, SymArray):
                    fill = {'zeros_like': 0, 'ones_like': 1, 'empty_like': 0}.get(name)
                    if fill is None:
                        fill = a[0] if a else k['fill_value']
                    o = asobj(x)
                    return sarr([conv_float(fill) if is_num(fill) else fill] * o.size, o.shape)
                return real(x, *a, **k)
            return like
        if name == 'where':
            def where(*a):
                if has_sym(a) or any(isinstance(x, SymArray) for x in a):
                    return np_where(*a)
                return real(*a)
            return where
        if name in UFUNCS and isinstance(real, _np.ufunc) or name in ('abs', 'round', 'around', 'fix'):
            if name in ('round', 'around'):
                def rnd(x, decimals=0, **k):
                    if has_sym(x) or isinstance(x, SymArray):
                        return elementwise(lambda v: fn.round_even(v, decimals))(x)
                    return real(x, decimals)
                return rnd
            if name == 'fix':
                return lambda x: elementwise(fn.trunc)(x) if has_sym(x) else real(x)
            f = UFUNCS[name]
            return UfuncProxy(name, real, f)
        if name in REDUCERS:
            g = REDUCERS[name]

            def red(*a, **k):
                if has_sym(a) or has_sym(k) or any(isinstance(x, SymArray) for x in a):
                    if name == 'average' and len(a) > 2:
                        k['weights'] = a[2]
                        a = a[:2]
                    return g(*a, **k)
                return real(*a, **k)
            return red
        if name == 'errstate':
            return errstate
        if name == 'seterr':
            def seterr(**k):
                return real(**k)
            return seterr
        if name == 'isscalar':
            return lambda x: True if isinstance(x, SYM) else real(x)
        if name == 'savetxt' or name == 'save':
            return real
        if isinstance(real, type) or not callable(real):
            if isinstance(real, types.ModuleType) and name in ('linalg', 'fft', 'ma', 'lib'):
                return SubProxy(real, f'numpy.{name}')
            return real

        @functools.wraps(real)
        def passthru(*a, **k):
            if has_sym(a) or has_sym(k):
                o = OVERRIDES.get(f'numpy.{name}')
                if o is not None:
                    return o(*a, **k)
                a = tuple(_plain(x) for x in a)
                k = {q: _plain(x) for q, x in k.items()}
                return _wrap(real(*a, **k))
            if any(isinstance(x, SymArray) for x in a):
                return _wrap(real(*a, **k))
            return real(*a, **k)
        return passthru


def _plain(x):
    """Symbolic data as plain object arrays for the real numpy."""
    if isinstance(x, SymArray):
        return x.view(_np.ndarray)
    if isinstance(x, SymReal):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)) and has_sym(x):
        if all(isinstance(v, _np.ndarray) for v in x):
            return type(x)(_plain(v) for v in x)
        return asobj(x).view(_np.ndarray)
    return x


class UfuncProxy:
    def __init__(self, name, real, f):
        self.name, self.real, self.f = name, real, f
        self.__name__ = name

    def __call__(self, *a, **k):
        if any(type(x).__module__.startswith('xarray.') and getattr(x, 'dtype', None) == object for x in a):
            import xarray
            g = elementwise2(self.f) if self.name in _TWO else elementwise(self.f)
            return xarray.apply_ufunc(lambda *v: _np.asarray(g(*[asobj(x) if isinstance(x, _np.ndarray) else x for x in v]), dtype=object),
                                      *(a[:2] if self.name in _TWO else a[:1]), keep_attrs=False)
        if has_sym(a) or any(isinstance(x, SymArray) for x in a):
            g = elementwise2(self.f) if self.name in _TWO else elementwise(self.f)
            r = g(*a[:2] if self.name in _TWO else a[:1])
            v = a[0]
            if type(v).__module__.startswith(('pandas.', 'xarray.')):
                return _rebox(v, r)
            if k.get('out') is not None:
                k['out'][...] = r
                return k['out']
            return r
        return self.real(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


def _rebox(v, r):
    try:
        if type(v).__module__.startswith('xarray.'):
            return v.copy(data=_np.asarray(r))
        c = v.copy()
        if c.ndim == 1:
            return type(v)(list(r), index=v.index, name=v.name, dtype=object)
        return type(v)(_np.asarray(r), index=v.index, columns=v.columns)
    except Exception:
        return r


class SubProxy(Proxy):
    """numpy.linalg and friends: unsupported on symbolic data, real otherwise."""

    def __init__(self, real, name):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        real = getattr(self.__dict__['_real'], n)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            if has_sym(a) or has_sym(k):
                o = OVERRIDES.get(f'{self._name}.{n}')
                if o is not None:
                    return o(*a, **k)
                unsupported(f'{self._name}.{n} on symbolic data')
            return real(*a, **k)
        return f


OVERRIDES = {}


@contextlib.contextmanager
def errstate(**k):
    with _np.errstate(**k):
        c = Ctx.cur
        if c is None:
            yield
            return
        old = c.warn
        if k.get('all') == 'ignore' or k.get('divide') == 'ignore' or k.get('invalid') == 'ignore':
            c.warn = 'ignore'
        try:
            yield
        finally:
            c.warn = old


class RandomProxy(Proxy):
    """numpy.random: nondeterministic choice when the harness installs one."""

    def __init__(self):
        super().__init__('numpy.random')

    def __getattr__(self, n):
        real = getattr(_np.random, n)
        h = OVERRIDES.get(f'numpy.random.{n}')
        if h is not None:
            return h
        return real


# --------------------------------------------------------------------------
# math, warnings, statistics
# --------------------------------------------------------------------------
class MathProxy(Proxy):
    _MAP = {'floor': fn.py_floor, 'ceil': fn.py_ceil, 'sqrt': fn.m_sqrt, 'log': fn.m_log, 'exp': fn.m_exp,
            'sin': fn.sin, 'cos': fn.cos, 'degrees': fn.m_degrees, 'radians': fn.radians, 'atan2': fn.arctan2,
            'fabs': fn.fabs, 'isnan': fn.isnan, 'isinf': fn.isinf, 'isfinite': fn.isfinite, 'trunc': fn.trunc,
            'pow': fn.power, 'hypot': fn.hypot, 'log10': fn.log10, 'tanh': fn.tanh, 'atanh': fn.arctanh}

    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        real = getattr(_math, n)
        f = self._MAP.get(n)
        if not callable(real):
            return real

        def g(*a, **k):
            if any(is_sym(x) for x in a) or (a and isinstance(a[0], (list, tuple)) and has_sym(a)):
                if n == 'fsum':
                    return m_sum(a[0])
                if n == 'isclose':
                    x, y = a[:2]
                    rel = k.get('rel_tol', 1e-9)
                    ab = k.get('abs_tol', 0.0)
                    d = abs(x - y)
                    m = fn.maximum(abs(x), abs(y)) * rel
                    return bool(d <= m) or bool(d <= ab)
                if f is None:
                    unsupported(f'math.{n} on a symbolic value')
                return f(*a, **k)
            return real(*a, **k)
        return g


class WarningsProxy(Proxy):
    """Models the process-wide filter state; forwards to the real module too."""

    def __init__(self):
        super().__init__('warnings')

    def filterwarnings(self, action, *a, **k):
        _warnings.filterwarnings(action, *a, **k)
        self._set(action, k.get('category', a[1] if len(a) > 1 else Warning), k.get('message', a[0] if a else ''))

    def simplefilter(self, action, *a, **k):
        _warnings.simplefilter(action, *a, **k)
        self._set(action, k.get('category', a[0] if a else Warning), '')

    def _set(self, action, category, message):
        c = Ctx.cur
        if c is not None and not message and isinstance(category, type) and issubclass(RuntimeWarning, category):
            c.warn = action

    def resetwarnings(self):
        _warnings.resetwarnings()
        if Ctx.cur is not None:
            Ctx.cur.warn = 'default'

    def catch_warnings(self, *a, **k):
        return _catch(*a, **k)

    def __getattr__(self, n):
        return getattr(_warnings, n)


class _catch:
    def __init__(self, *a, **k):
        self.cm = _warnings.catch_warnings(*a, **k)
        self.action = k.get('action')

    def __enter__(self):
        self.old = Ctx.cur.warn if Ctx.cur else None
        r = self.cm.__enter__()
        if self.action and Ctx.cur:
            Ctx.cur.warn = self.action
        return r

    def __exit__(self, *e):
        if Ctx.cur:
            Ctx.cur.warn = self.old
        return self.cm.__exit__(*e)


def _py(x):
    if isinstance(x, SymReal):
        return SymReal(x.num, x.den, x.nan, False)
    return x


def st_mean(data):
    v = list(data)
    if not v:
        raise _statistics.StatisticsError('mean requires at least one data point')
    if not has_sym(v):
        return _statistics.mean(v)
    return lsum(v) / len(v)


def st_variance(data, xbar=None):
    v = list(data)
    if not has_sym(v):
        return _statistics.variance(v)
    if len(v) < 2:
        raise _statistics.StatisticsError('variance requires at least two data points')
    return _var(v, 1)


def st_stdev(data, xbar=None):
    v = list(data)
    if not has_sym(v):
        return _statistics.stdev(v)
    return _py(fn.sqrt(st_variance(v)))


def st_pvariance(data, mu=None):
    v = list(data)
    return _var(v, 0) if has_sym(v) else _statistics.pvariance(v)


def st_median(data):
    v = list(data)
    if not has_sym(v):
        return _statistics.median(v)
    return np_median(v)


class StatisticsProxy(Proxy):
    def __init__(self):
        super().__init__('statistics')
        self.mean, self.fmean, self.variance, self.stdev = st_mean, st_mean, st_variance, st_stdev
        self.median, self.pvariance = st_median, st_pvariance
        self.pstdev = lambda d, mu=None: _py(fn.sqrt(st_pvariance(d)))

    def __getattr__(self, n):
        return getattr(_statistics, n)


NP = NumpyProxy()
MATH = MathProxy()
WARN = WarningsProxy()
STATS = StatisticsProxy()
