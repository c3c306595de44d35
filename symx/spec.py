"""Helpers for reference models; they work on symbolic and on concrete values."""
from fractions import Fraction
import math
import numpy as np
from . import core, fn, npx
from .core import is_sym, lift


class Undefined(Exception):
    """The statistic is not defined for this input."""


def div(a, b):
    if a is None or b is None:
        raise Undefined()
    if b == 0:
        raise Undefined()
    return a / b


def log(x):
    if not (x > 0):
        raise Undefined()
    return fn.log(x)


def sqrt(x):
    if x < 0:
        raise Undefined()
    return fn.sqrt(x)


def half_up(x, digits=7):
    m = 10 ** digits
    if is_sym(x):
        return fn.py_floor(lift(x, False) * m + Fraction(1, 2)) / m
    return math.floor(x * m + 0.5) / m


def total(xs):
    """Sum of the non-missing values; Undefined when all are missing."""
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        nans = [fn.isnan(x) for x in xs]
        if bool(core.sym_and(nans)):
            raise Undefined()
        return npx.np_nansum(xs)
    a = np.array(xs, dtype=float)
    if np.isnan(a).all():
        raise Undefined()
    return np.float64(np.nansum(a))


def strict_total(xs):
    """Sum; Undefined when any value is missing."""
    xs = list(xs)
    if any(bool(fn.isnan(x)) for x in xs):
        raise Undefined()
    return npx.lsum(xs) if any(is_sym(x) for x in xs) else np.float64(sum(xs))


def defined(f, *a, **k):
    """Value of a definition, or None where it is undefined."""
    try:
        return f(*a, **k)
    except Undefined:
        return None
    except ZeroDivisionError:
        return None


class Cols:
    """Column sums of a table by name (lazily, so that only needed columns matter)."""

    def __init__(self, rows, names):
        self.rows, self.names = rows, list(names)
        self.cache = {}

    def col(self, name):
        j = self.names.index(name)
        return [r[j] for r in self.rows]

    def __getitem__(self, name):
        if name not in self.cache:
            self.cache[name] = total(self.col(name))
        return self.cache[name]

    def strict(self, name):
        return strict_total(self.col(name))
