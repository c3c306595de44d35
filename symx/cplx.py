"""Complex values with symbolic parts, and discrete Fourier transforms by their definition."""
import math as _math
from fractions import Fraction
import numpy as _np
from . import core, fn, npx
from .core import SymReal, lift, unsupported, is_num


def _parts(x):
    if isinstance(x, SymComplex):
        return x.re, x.im
    if isinstance(x, (complex, _np.complexfloating)):
        return float(x.real), float(x.imag)
    return x, 0


def _add(a, b):
    return b if is_num(a) and a == 0 else a if is_num(b) and b == 0 else a + b


def _mul(a, b):
    for u, v in ((a, b), (b, a)):
        if is_num(u) and u == 0:
            return 0
        if is_num(u) and u == 1:
            return v
    return a * b


class Modulus(SymReal):
    """|z| that remembers |z|^2; the root is only introduced when it is used."""
    __slots__ = ('sq', '_r')

    def __init__(self, sq):
        self.sq, self._r = sq, None

    def root(self):
        if self._r is None:
            self._r = fn._sqrt_nonneg(self.sq)
        return self._r

    num = property(lambda s: s.root().num)
    den = property(lambda s: s.root().den)
    nan = property(lambda s: s.sq.nan)
    np = property(lambda s: True)

    def __mul__(self, o):
        return self.sq if o is self else SymReal.__mul__(self, o)

    def __pow__(self, n):
        return self.sq if is_num(n) and n == 2 else SymReal.__pow__(self, n)


class SymComplex:
    __array_priority__ = 1000
    dtype = _np.dtype('complex128')
    ndim, shape, size = 0, (), 1

    def __init__(self, re, im):
        self.re, self.im = re, im

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def conjugate(self):
        return SymComplex(self.re, _mul(-1, self.im))
    conj = conjugate

    def __add__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        a, b = _parts(o)
        return SymComplex(_add(self.re, a), _add(self.im, b))
    __radd__ = __add__

    def __neg__(self):
        return SymComplex(_mul(-1, self.re), _mul(-1, self.im))

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, _np.bool_)):
            o = int(o)
        a, b = _parts(o)
        return SymComplex(_add(_mul(self.re, a), _mul(-1, _mul(self.im, b))), _add(_mul(self.re, b), _mul(self.im, a)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (SymComplex, complex, _np.complexfloating)):
            unsupported('complex division')
        return SymComplex(self.re / o if not (is_num(self.re) and self.re == 0) else 0, self.im / o if not (is_num(self.im) and self.im == 0) else 0)

    def __abs__(self):
        m = _add(_mul(self.re, self.re), _mul(self.im, self.im))
        if is_num(m):
            return fn.sqrt(m)
        return Modulus(lift(m))

    def __eq__(self, o):
        a, b = _parts(o)
        return core.sym_and([self.re == a, self.im == b])

    def __ne__(self, o):
        return ~self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return f'<sym {self.re!r} + {self.im!r}i>'


def _any(f, a, b):
    r = [f(a), f(b)]
    return core.sym_or(r) if any(core.is_sym(x) for x in r) else bool(r[0] or r[1])


FUNS = {'isnan': lambda z: _any(fn.isnan, z.re, z.im), 'isfinite': lambda z: not _any(lambda x: not fn.isfinite(x), z.re, z.im),
        'absolute': abs, 'abs': abs, 'square': lambda z: z * z, 'negative': lambda z: -z, 'conjugate': lambda z: z.conjugate(), 'conj': lambda z: z.conjugate()}


def _install():
    core.SYM = npx.SYM = core.SYM + (SymComplex,)
    one, two = npx.elementwise, npx.elementwise2

    def elementwise(f):
        name = getattr(f, '__name__', '')
        g = FUNS.get(name)

        def h(v, *r):
            if isinstance(v, SymComplex):
                return g(v) if g else unsupported(f'{name} of a complex value')
            return f(v, *r)
        return one(h)

    def elementwise2(f):
        name = getattr(f, '__name__', '')
        op = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b}.get(name)

        def h(a, b, *r):
            if isinstance(a, SymComplex) or isinstance(b, SymComplex):
                return op(a, b) if op else unsupported(f'{name} of complex values')
            return f(a, b, *r)
        return two(h)
    npx.elementwise, npx.elementwise2 = elementwise, elementwise2
    lsum = npx.lsum

    def csum(xs):
        xs = list(xs)
        if any(isinstance(x, SymComplex) for x in xs):
            t = xs[0]
            for x in xs[1:]:
                t = t + x
            return t
        return lsum(xs)
    npx.lsum = csum


def _apply(f, x):
    a = npx.asobj(x)
    r = npx.sarr([f(v) for v in a.flat], a.shape)
    if type(x).__module__.startswith('xarray.'):
        return x.copy(data=_np.asarray(r))
    return npx.unwrap0(r)


def np_angle(x, deg=False):
    def f(z):
        r = fn.arctan2(*_parts(z)[::-1])
        return fn.degrees(r) if deg else r
    return npx.unwrap0(npx.asobj([f(v) for v in npx.asobj(x).flat]).reshape(npx.asobj(x).shape))


# -- transforms ----------------------------------------------------------------------
def root(k, n):
    """cos and sin of 2 pi k / n, exact where they are rational."""
    def c(k):
        k %= n
        for m, v in ((0, 1), (Fraction(1, 6), Fraction(1, 2)), (Fraction(1, 4), 0), (Fraction(1, 3), Fraction(-1, 2)), (Fraction(1, 2), -1),
                     (Fraction(2, 3), Fraction(-1, 2)), (Fraction(3, 4), 0), (Fraction(5, 6), Fraction(1, 2))):
            if Fraction(k) / n == m:
                return v
        return Fraction(_math.cos(2 * _math.pi * k / n))
    return c(Fraction(k)), c(Fraction(k) - Fraction(n, 4))


def _dft(v, sign):
    n = len(v)
    out = []
    for k in range(n):
        t = SymComplex(0, 0)
        for j, x in enumerate(v):
            c, s = root(j * k, n)
            t = t + SymComplex(*_parts(x)) * SymComplex(_plain(c), _plain(sign * s))
        out.append(t)
    return out


def _plain(c):
    return int(c) if c == int(c) else c


def fft(x, axis=-1):
    return npx.along(lambda v: npx.sarr(_dft(v, -1)), x, axis)


def rfft(x, n=None, axis=-1, **k):
    if n is not None or k:
        unsupported('length of a transform')
    return npx.along(lambda v: npx.sarr(_dft(v, -1)[:len(v) // 2 + 1]), x, axis)


def irfft(x, n=None, axis=-1, **k):
    def f(v):
        m = n if n is not None else 2 * (len(v) - 1)
        v = list(v)[:m // 2 + 1]
        v = v + [SymComplex(0, 0)] * (m // 2 + 1 - len(v))
        full = list(v) + [None] * (m - len(v))
        full[0] = SymComplex(_parts(v[0])[0], 0)
        if m % 2 == 0 and m:
            full[m // 2] = SymComplex(_parts(v[m // 2])[0], 0)
        for q in range(1, (m + 1) // 2):
            a, b = _parts(v[q])
            full[q], full[m - q] = SymComplex(a, b), SymComplex(a, _mul(-1, b))
        return npx.sarr([z.re / m for z in _dft(full, 1)])
    return npx.along(f, x, axis)


def fft2(x, axes=(-2, -1), **k):
    return fft(fft(x, axes[1]), axes[0])


def rfft2(x, axes=(-2, -1), **k):
    return fft(rfft(x, axis=axes[1]), axes[0])


def _shift(name):
    real = getattr(_np.fft, name)
    return lambda x, axes=None: npx.asobj(real(npx._plain(npx.asobj(x)), axes=axes))


_install()
for pkg in ('numpy.fft', 'scipy.fft', 'scipy.fftpack'):
    npx.OVERRIDES.update({f'{pkg}.rfft': rfft, f'{pkg}.irfft': irfft, f'{pkg}.fft2': fft2, f'{pkg}.rfft2': rfft2, f'{pkg}.fft': lambda x, n=None, axis=-1, **k: fft(x, axis),
                          f'{pkg}.fftshift': _shift('fftshift'), f'{pkg}.ifftshift': _shift('ifftshift')})
npx.OVERRIDES.update({'numpy.angle': np_angle, 'numpy.real': lambda x: _apply(lambda z: _parts(z)[0], x), 'numpy.imag': lambda x: _apply(lambda z: _parts(z)[1], x),
                      'numpy.conj': lambda x: _apply(lambda z: z.conjugate() if isinstance(z, SymComplex) else z, x)})
npx.OVERRIDES['numpy.conjugate'] = npx.OVERRIDES['numpy.conj']
