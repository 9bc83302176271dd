"""helpers shared by the harnesses (work on symbolic and on concrete values)"""
import math

import numpy as np

from symx import core
from symx.core import add, and_, div, eq, ge, gt, is_sym, ite, le, lt, maximum, minimum, mul, ne, not_, norm_num, or_, sub
from symx.harness import Harness, Registry

NAN = float("nan")


def isnan(x):
    x = norm_num(x)
    return isinstance(x, float) and math.isnan(x)


def ssum(xs):
    r = 0
    for x in xs:
        r = add(r, norm_num(x))
    return r


def smean(xs):
    xs = list(xs)
    return div(ssum(xs), float(len(xs)))


def elems(a):
    """list of raw elements of an array (row major)"""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    v = a.view(np.ndarray)
    return [norm_num(v[i]) for i in np.ndindex(*v.shape)]


def at(a, *idx):
    """raw element of an array at a concrete index"""
    v = a.view(np.ndarray) if isinstance(a, np.ndarray) else np.asarray(a)
    return norm_num(v[idx])


def snapshot(*arrays):
    """element-wise copy of arrays, to check later that nothing was mutated"""
    return [([x for x in elems(a)], a.shape) for a in arrays]


def unchanged(c, snap, arrays, label):
    for (els, shp), a in zip(snap, arrays):
        c.check(tuple(a.shape) == tuple(shp), label + " (shape)")
        new = elems(a)
        for x, y in zip(els, new):
            if is_sym(x) or is_sym(y):
                c.check(eq(x, y) if not (core._bad(x) or core._bad(y)) else False, label)
            else:
                c.check(x == y or (isnan(x) and isnan(y)), label)


def raises(c, exc, fn, *a, **k):
    """True when fn raises exc"""
    try:
        fn(*a, **k)
    except exc:
        return True
    return False


def npi(x):
    return np.asarray(x)


class CountsCtx:
    """context in which the arrays of the given names hold detector counts of an integer type"""

    def __init__(self, c, names, dtype, lo, hi):
        self.__dict__.update(_c=c, _names=names, _dtype=dtype, _lo=lo, _hi=hi)

    def __getattr__(self, k):
        return getattr(self._c, k)

    def __setattr__(self, k, v):
        setattr(self._c, k, v)

    def reals(self, name, shape, lo=None, hi=None):
        if name.rstrip("0123456789") in self._names:
            return self._c.ints(name, shape, self._lo, self._hi, dtype=np.dtype(self._dtype))
        return self._c.reals(name, shape, lo, hi)


def as_counts(fn, *names, dtype="uint8", lo=0, hi=255):
    """the harness fn with integer arrays instead of real ones"""

    def g(c, *a):
        return fn(CountsCtx(c, names, dtype, lo, hi), *a)

    g.__name__ = "%s_%s" % (fn.__name__, dtype)
    return g
