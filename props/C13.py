"""C13 conversions between q, d and two-theta; powder standards"""
import numpy as np
from skbeam.core import utils
from skbeam.core.constants import xrs

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["sin and arcsin are uninterpreted functions that are inverse to each other on [-pi/2, pi/2], monotone there"]
TP = 2 * np.pi


def forms(c, name, lo, hi):
    """scalar, list and array arguments"""
    f = c.choice("form", ["array", "list", "grid", "scalar", "tuple", "ints"])
    if f == "scalar":
        return c.real(name + "0", lo, hi), f
    if f == "tuple":
        return tuple(c.real("%s%d" % (name, k), lo, hi) for k in range(2)), f
    if f == "ints":
        return [c.choice("%s%d" % (name, k), [1, 2]) for k in range(2)], f
    if f == "array":
        return c.reals(name, 3, lo, hi), f
    if f == "list":
        return [c.real("%s%d" % (name, k), lo, hi) for k in range(2)], f
    return c.reals(name, (2, 2), lo, hi), f


def flat_(x):
    return elems(x) if isinstance(x, np.ndarray) else list(x) if isinstance(x, (list, tuple)) else [x]


def outs(x):
    """the results, whatever form they have"""
    return elems(x) if np.ndim(x) else [x.item() if isinstance(x, np.ndarray) else x]


@HARNESSES.add(functions=["utils.q_to_d", "utils.d_to_q"], bounds="arrays of 3, lists of 2, 2x2 grids of any values in [1/16,16]")
def q_and_d(c):
    v, f = forms(c, "v", 0.0625, 16)
    fn = c.choice("fn", ["q_to_d", "d_to_q"])
    g = getattr(utils, fn)
    h = getattr(utils, {"q_to_d": "d_to_q", "d_to_q": "q_to_d"}[fn])
    o = g(v)
    back = h(o)
    c.check(tuple(np.shape(o)) == tuple(np.shape(v)), "shape is kept")
    c.check(len(outs(o)) == len(outs(back)) == len(flat_(v)), "one result per value")
    for x, y, z in zip(flat_(v), outs(o), outs(back)):
        c.check_eq(mul(x, y), TP, "q times d is 2 pi")
        c.check_eq(z, x, "the conversions are inverse to each other")


@HARNESSES.add(functions=["utils.twotheta_to_q"], bounds="any two-theta in [-3,3], any wavelength in [1/8,8]; numpy and python numbers")
def tt_to_q(c):
    v, f = forms(c, "t", -3, 3)
    w = c.real("lam", 0.125, 8)
    o = utils.twotheta_to_q(v, w)
    c.check(tuple(np.shape(o)) == tuple(np.shape(v)), "shape is kept")
    for x, y in zip(flat_(v), outs(o)):
        c.check_eq(mul(y, w), mul(2 * TP, core.sin(div(x, 2.0))), "lambda q = 4 pi sin(theta)")


@HARNESSES.add(functions=["utils.q_to_twotheta"], bounds="any q in [-8,8], any wavelength in [1/8,8]; beyond the limiting sphere the result is NaN")
def q_to_tt(c):
    q, f = forms(c, "q", -8, 8)
    w = c.real("lam", 0.125, 8)
    o = utils.q_to_twotheta(q, w)
    c.check(tuple(np.shape(o)) == tuple(np.shape(q)), "shape is kept")
    for x, y in zip(flat_(q), outs(o)):
        s = div(mul(x, w), 2 * TP)
        if isnan(y):
            c.check(or_(gt(s, 1 - 1e-12), lt(s, -1 + 1e-12)), "not a number only beyond the limiting sphere")
            continue
        c.check(and_(le(s, 1 + 1e-12), ge(s, -1 - 1e-12)), "a value only within the limiting sphere")
        c.check_eq(core.sin(div(y, 2.0)), s, "sin(theta) = lambda q / 4 pi", tol=1e-7)
        c.check_all([le(y, np.pi + 1e-9), ge(y, -np.pi - 1e-9)], "two-theta in [-pi, pi]")


@HARNESSES.add(functions=["utils.q_to_twotheta", "utils.twotheta_to_q"], bounds="any two-theta in [0,3.1], any two wavelengths in [1/8,8]")
def round_trip(c):
    t = c.reals("t", 2, 0, 3.1)
    w = c.real("lam", 0.125, 8)
    back = utils.q_to_twotheta(utils.twotheta_to_q(t, w), w)
    for x, y in zip(elems(t), elems(back)):
        c.check(not isnan(y), "in the domain")
        if not isnan(y):
            c.check_eq(y, x, "two-theta -> q -> two-theta is the identity", tol=1e-6)


@HARNESSES.add(functions=["PowderStandard.from_d", "PowderStandard.__iter__", "PowderStandard.convert_2theta"], bounds="3 plane spacings in [1/4,8] in any order, with and without Miller indices, any wavelength that keeps all reflections visible", quick_s=120)
def from_d(c):
    how = c.choice("hkl", ["given", "none"])
    aslist = c.choice("as", ["list", "array"])
    d = [c.real("d%d" % k, 0.25, 8) for k in range(3)] if aslist == "list" else c.reals("d", 3, 0.25, 8)
    ds = flat_(d)
    for i in range(3):
        for j in range(i):
            c.assume(or_(lt(ds[i], sub(ds[j], 1e-6)), gt(ds[i], add(ds[j], 1e-6))))
    hkl = ((1, 0, 0), (1, 1, 0), (2.0, 1, 1))
    s = xrs.PowderStandard.from_d("name", d, hkl if how == "given" else None)
    check_standard(c, s, ds, [div(TP, x) for x in ds], hkl if how == "given" else None)
    w = c.real("lam", 0.125, 0.4)
    tt = s.convert_2theta(w)
    for r, y in zip(s, elems(tt)):
        if isnan(y):
            c.check(False, "reflection is visible")
            continue
        c.check_eq(core.sin(div(y, 2.0)), div(mul(r.q, w), 2 * TP), "two-theta of the k-th reflection at the new wavelength", tol=1e-7)
    c.check(len(tt) == 3, "one angle per reflection")


def check_standard(c, s, ds, qs, hkl):
    rs = list(s)
    c.check(len(s) == 3 and len(rs) == 3 and len(s.reflections) == 3, "one reflection per line")
    c.check(s.name == "name" and "name" in str(s), "name")
    for a, b in zip(rs, rs[1:]):
        c.check(le(a.q, b.q), "reflections are sorted by q")
    for r in rs:
        c.check_eq(mul(r.d, r.q), TP, "d and q of a reflection belong together")
    # as a set: every line appears with its own indices
    for k in range(3):
        idx = (0, 0, 0) if hkl is None else tuple(int(x) for x in hkl[k])
        c.check(or_(*[and_(le(sub(r.d, ds[k]), 1e-7), le(sub(ds[k], r.d), 1e-7)) for r in rs if tuple(r.hkl) == idx]), "line and its Miller indices stay together")


@HARNESSES.add(functions=["PowderStandard.from_lambda_2theta_hkl"], bounds="3 angles in [0.05,3.1] in any order, any wavelength, with and without Miller indices", quick_s=120)
def from_two_theta(c):
    how = c.choice("hkl", ["given", "none"])
    tt = c.reals("t", 3, 0.05, 3.1)
    w = c.real("lam", 0.25, 4)
    qs = [div(mul(2 * TP, core.sin(div(x, 2.0))), w) for x in elems(tt)]
    for q in qs:
        c.assume(ge(q, 0.03125))
    for i in range(3):
        for j in range(i):
            c.assume(or_(lt(qs[i], sub(qs[j], 1e-5)), gt(qs[i], add(qs[j], 1e-5))))
    hkl = ((1, 0, 0), (1, 1, 0), (2, 1, 1))
    s = xrs.PowderStandard.from_lambda_2theta_hkl("name", w, tt, hkl if how == "given" else None)
    check_standard(c, s, [div(TP, q) for q in qs], qs, hkl if how == "given" else None)


@HARNESSES.add(functions=["HKL"], bounds="any three integers in [-9,9], positional and keyword, as floats")
def hkl(c):
    v = [c.int(n, -9, 9) for n in "hkl"]
    how = c.choice("how", ["positional", "keyword"])
    x = xrs.HKL(*v) if how == "positional" else xrs.HKL(h=v[0], k=v[1], l=v[2])
    c.check_eq([x.h, x.k, x.l], v, "indices", exact=True)
    n = x.length
    c.check(ge(n, 0), "length")
    c.check_eq(mul(n, n), ssum(mul(a, a) for a in v), "length is the Euclidean norm")
    f = xrs.HKL(1.0, 2.0, 3.0)
    c.check(tuple(f) == (1, 2, 3) and all(isinstance(q, int) for q in f), "indices are integers")


@HARNESSES.add(functions=["constants.xrs.calibration_standards"], bounds="the tabulated standards (constants): decided by evaluation on the path")
def tables(c):
    i = c.choice("standard", ["Si", "CeO2", "Al2O3", "LaB6", "Ni"])
    s = xrs.calibration_standards[i]
    c.check(s.name == i, "name")
    c.check(len(s) == {"Si": 11, "CeO2": 6, "Al2O3": 29, "LaB6": 24, "Ni": 24}[i], "all tabulated lines are there")
    for r in s:
        d, q, (h, k, l) = r.d, r.q, r.hkl
        c.check(abs(d * q - TP) < 1e-9, "d and q belong together")
        if i in ("Si", "CeO2"):
            a, tol = {"Si": (5.43123, 3e-5), "CeO2": (5.4116, 3e-3)}[i]
            c.check(abs(d * np.sqrt(h * h + k * k + l * l) / a - 1) < tol, "spacing fits the cubic cell")
        elif i == "Al2O3":
            a, cc = 4.759091, 12.991779
            c.check(abs(d * np.sqrt(4 / 3 * (h * h + h * k + k * k) / a**2 + l * l / cc**2) - 1) < 1e-4, "spacing fits the hexagonal cell")
        else:
            a, tol = {"LaB6": (4.156, 2e-2), "Ni": (3.524, 1e-4)}[i]
            n = (a / d) ** 2
            c.check(abs(n - round(n)) < tol * max(1, n / 8), "spacing is one of the cubic lattice")
