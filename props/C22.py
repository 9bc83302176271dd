"""C22 line shapes, photon statistics and model parameters"""
import math

import numpy as np
import scipy.special
from skbeam.core.fitting import lineshapes as ls
from skbeam.core.fitting import models

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["exp, cos, erfc and the Faddeeva function are uninterpreted functions (equal arguments give equal values), exp monotone and positive"]
FW = 2 * math.sqrt(2 * math.log(2))


def erfc(x):
    return core.uf("erfc", x) if is_sym(x) else float(scipy.special.erfc(x))


def wofz_re(re, im):
    return core.uf("wofz_re", re, im) if is_sym(re) or is_sym(im) else float(scipy.special.wofz(complex(re, im)).real)


def sq(x):
    return mul(x, x)


def exp(x):
    return core.exp(x)


def gauss(x, a, c0, s):
    return mul(div(a, mul(math.sqrt(2 * math.pi), s)), exp(div(sq(sub(x, c0)), mul(-2.0, sq(s)))))


def lorentz(x, a, c0, s):
    return div(a, mul(mul(math.pi, s), add(1.0, sq(div(sub(x, c0), s)))))


def step(x, a, c0, s, e):
    return div(mul(a, erfc(div(sub(x, c0), mul(math.sqrt(2), s)))), mul(2.0, e))


def tail(x, a, c0, s, g):
    d = sub(x, c0)
    t = exp(div(minimum(d, 0.0), mul(g, s)))
    v1 = erfc(add(div(d, mul(math.sqrt(2), s)), div(1.0, mul(g, math.sqrt(2)))))
    return div(mul(mul(a, t), v1), mul(mul(2.0, mul(g, s)), exp(div(-0.5, sq(g)))))


def xs_(c, n=2):
    f = c.choice("x", ["array", "ints"])
    return c.reals("x", n, -8, 8) if f == "array" else c.ints("xi", n, -8, 8)


def pars(c):
    return c.real("area", -9, 9), c.real("center", -8, 8), c.real("sigma", 0.0625, 8)


@HARNESSES.each({k: k for k in ("gaussian", "lorentzian", "lorentzian2", "pvoigt", "voigt", "voigt_gamma", "step", "tail")}, functions=["lineshapes.gaussian", "lineshapes.lorentzian", "lineshapes.lorentzian2", "lineshapes.pvoigt", "lineshapes.voigt", "lineshapes.gausssian_step", "lineshapes.gaussian_tail"], bounds="any 2 locations (reals or integers), any area, centre, width and shape parameter", quick_s=90)
def shape(c, kind):
    x = xs_(c)
    a, c0, s = pars(c)
    sn = snapshot(x)
    if kind == "gaussian":
        r, f = ls.gaussian(x, a, c0, s), lambda v: gauss(v, a, c0, s)
    elif kind == "lorentzian":
        r, f = ls.lorentzian(x, a, c0, s), lambda v: lorentz(v, a, c0, s)
    elif kind == "lorentzian2":
        r, f = ls.lorentzian2(x, a, c0, s), lambda v: div(a, mul(mul(math.pi, s), sq(add(1.0, sq(div(sub(v, c0), s))))))
    elif kind == "pvoigt":
        w = c.real("fraction", 0, 1)
        r, f = ls.pvoigt(x, a, c0, s, w), lambda v: add(mul(sub(1.0, w), gauss(v, a, c0, s)), mul(w, lorentz(v, a, c0, s)))
    elif kind in ("voigt", "voigt_gamma"):
        g = s if kind == "voigt" else c.real("gamma", 0.0625, 8)
        r = ls.voigt(x, a, c0, s) if kind == "voigt" else ls.voigt(x, a, c0, s, g)
        den = mul(s, math.sqrt(2.0))
        f = lambda v: div(mul(a, wofz_re(div(sub(v, c0), den), div(g, den))), mul(s, math.sqrt(2 * math.pi)))
    elif kind == "step":
        e = c.real("peak_e", 0.125, 64)
        r, f = ls.gausssian_step(x, a, c0, s, e), lambda v: step(v, a, c0, s, e)
    else:
        g = c.real("gamma", 0.125, 8)
        r, f = ls.gaussian_tail(x, a, c0, s, g), lambda v: tail(v, a, c0, s, g)
    unchanged(c, sn, [x], "locations are not changed")
    c.check(tuple(r.shape) == (2,), "shape")
    c.check_eq(elems(r), [f(v) for v in elems(x)], "the line shape", tol=1e-7)


@HARNESSES.add(functions=["lineshapes.gaussian", "lineshapes.lorentzian", "lineshapes.lorentzian2"], bounds="any positive area, any centre and width, any two distances: symmetric, positive, decreasing away from the centre", quick_s=90)
def peak_form(c):
    kind = c.choice("kind", ["gaussian", "lorentzian", "lorentzian2"])
    f = getattr(ls, kind)
    a, s = c.real("area", 0.125, 9), c.real("sigma", 0.0625, 8)
    c0 = c.real("center", -8, 8)
    d = c.real("d", 0, 8)
    r = elems(f(c.array([add(c0, d), sub(c0, d), c0]), a, c0, s))
    c.check_eq(r[0], r[1], "symmetric about the centre", tol=1e-7)
    c.check(and_(gt(r[2], 0), ge(r[0], 0)), "positive")
    if kind == "gaussian":
        c.check(ge(r[2], sub(r[0], 1e-9)), "largest at the centre")


def calib(c):
    return c.real("e_offset", -2, 2), c.real("e_linear", 0.0078125, 2), c.real("e_quadratic", -0.125, 0.125)


def width(e0, off, fano, eps):
    return core.sqrt(add(sq(div(off, FW)), mul(mul(e0, eps), fano)))


@HARNESSES.each({"default": False, "epsilon": True}, functions=["lineshapes.elastic"], bounds="any 2 channels, any amplitude, energy, calibration and detector parameters")
def elastic(c, given):
    x = xs_(c)
    amp, e0 = c.real("amp", -9, 9), c.real("e0", 0.5, 64)
    off, fano = c.real("fwhm_offset", 0.0625, 2), c.real("fwhm_fanoprime", 0.0009765625, 1)
    o, l, q = calib(c)
    eps = c.real("eps", 1, 4) if given else 2.96
    r = ls.elastic(x, amp, e0, off, fano, o, l, q, *([eps] if given else []))
    s = width(e0, off, fano, eps)
    en = [add(o, add(mul(v, l), mul(sq(v), q))) for v in elems(x)]
    c.check_eq(elems(r), [gauss(v, amp, e0, s) for v in en], "Gaussian at the incident energy with the detector's width", tol=1e-7)


@HARNESSES.each({"step": True, "nostep": False, "epsilon": None}, functions=["lineshapes.compton"], bounds="any channel, any amplitude, energy, angle, calibration, step and tail parameters; default and given pair energy", quick_s=120)
def compton(c, st):
    x = c.reals("x", 1, -4, 4)
    amp, e0 = c.real("amp", -9, 9), c.real("e0", 0.5, 64)
    off, fano = c.real("fwhm_offset", 0.0625, 2), c.real("fwhm_fanoprime", 0.0009765625, 1)
    o, l, q = calib(c)
    ang = c.real("angle", 0, 180)
    corr = c.real("corr", 0.125, 4)
    fs = c.real("f_step", 0.015625, 2) if st else 0.0
    ft, g = c.real("f_tail", 0, 3), c.real("gamma", 0.125, 8)
    hf, hg = c.real("hi_f_tail", 0, 1), c.real("hi_gamma", 0.125, 4)
    eps = 2.96 if st is not None else c.real("eps", 1, 4)
    sn = snapshot(x)
    r = ls.compton(x, amp, e0, off, fano, o, l, q, ang, corr, fs, ft, g, hf, hg, *([] if st is not None else [eps]))
    unchanged(c, sn, [x], "channels are not changed")
    v = elems(x)[0]
    en = add(o, add(mul(v, l), mul(sq(v), q)))
    ce = div(e0, add(1.0, mul(div(e0, 511.0), sub(1.0, core.cos(mul(ang, math.pi / 180))))))
    s = width(ce, off, fano, eps)
    f = div(1.0, add(add(1.0, fs), add(ft, hf)))
    t = add(gauss(en, amp, ce, mul(s, corr)), add(mul(ft, tail(en, amp, ce, s, g)), mul(hf, tail(sub(0.0, en), amp, sub(0.0, ce), s, hg))))
    if st:
        t = add(t, mul(fs, step(en, amp, ce, s, ce)))
    c.check_eq(elems(r), [mul(f, t)], "normalised sum of the peak, the step and both tails", tol=1e-6)


@HARNESSES.add(functions=["lineshapes.poisson_dist", "lineshapes.nbinom_dist", "lineshapes.gamma_dist"], bounds="counts 0 to 4, any mean in [1/16,16], 1 to 4 modes; gamma: any positive value", quick_s=90)
def statistics(c):
    kind = c.choice("kind", ["poisson", "nbinom", "gamma"])
    K = c.real("K", 0.0625, 16)
    ks = np.arange(5)
    M = c.choice("M", [1, 2, 3, 4]) if kind != "poisson" else None
    if kind == "poisson":
        r = ls.poisson_dist(ks, K)
        want = [div(mul(exp(sub(0.0, K)), core.power(K, int(k))), float(math.factorial(k))) for k in ks]
    elif kind == "nbinom":
        r = ls.nbinom_dist(ks, K, M)
        co = [math.comb(int(k) + M - 1, int(k)) for k in ks]
        want = [mul(float(q), mul(core.power(div(float(M), add(K, float(M))), M), core.power(div(K, add(K, float(M))), int(k)))) for k, q in zip(ks, co)]
    else:
        v = c.reals("v", 2, 0.0625, 8)
        r = ls.gamma_dist(v, K, M)
        th = div(K, float(M))
        want = [div(mul(core.power(q, M - 1), exp(sub(0.0, div(q, th)))), mul(float(math.factorial(M - 1)), core.power(th, M))) for q in elems(v)]
    c.check_eq(elems(r), want, "the probability of k counts", tol=1e-7)


@HARNESSES.add(functions=["models.set_default"], bounds="functions of one to three parameters, every bound type, any values and limits; parameters that are not listed", quick_s=60)
def defaults(c):
    bt = [c.choice("bound%d" % k, ["none", "fixed", "lo", "hi", "lohi", "other"]) for k in range(2)]
    vals = [{"bound_type": b, "value": c.real("v%d" % k, -4, 4), "min": c.real("lo%d" % k, -9, -4), "max": c.real("hi%d" % k, 4, 9)} for k, b in enumerate(bt)]
    table = {"p": vals[0], "q": vals[1]}
    hints = {}

    class Spy:
        def set_param_hint(self, name, **kw):
            hints[name] = kw

    def fun(x, p, unlisted, q):
        return x

    old = models.get_para
    models.get_para = lambda: table
    try:
        try:
            models.set_default(Spy(), fun)
        except TypeError:
            c.check("other" in bt, "only unknown bound types are rejected")
            return
    finally:
        models.get_para = old
    c.check("other" not in bt, "unknown bound types are rejected")
    c.check(set(hints) == {"p", "q"}, "every listed parameter except the independent variable")
    for n, d in table.items():
        h, b = hints[n], d["bound_type"]
        c.check(h.get("vary") is (b != "fixed"), "only a fixed parameter does not vary")
        if b != "none":
            c.check_eq(h["value"], d["value"], "start value", exact=True)
        c.check(("min" in h) == (b in ("lo", "lohi")) and ("max" in h) == (b in ("hi", "lohi")), "bounds as the type says")
        if "min" in h:
            c.check_eq(h["min"], d["min"], "lower bound", exact=True)
        if "max" in h:
            c.check_eq(h["max"], d["max"], "upper bound", exact=True)


@HARNESSES.add(functions=["models.ElasticModel", "models.ComptonModel", "models.Lorentzian2Model"], bounds="one channel, any parameter values: the models evaluate their line shapes")
def wrapped(c):
    kind = c.choice("kind", ["Elastic", "Compton", "Lorentzian2"])
    m = getattr(models, kind + "Model")()
    f = {"Elastic": ls.elastic, "Compton": ls.compton, "Lorentzian2": ls.lorentzian2}[kind]
    c.check(m.func is f or getattr(m.func, "__name__", "") == f.__name__, "wraps its line shape")
    if kind != "Lorentzian2":
        c.check(m.param_hints["epsilon"]["value"] == 2.96 and m.param_hints["epsilon"]["vary"] is False, "pair energy is fixed")
    c.check(list(m.independent_vars) == ["x"], "independent variable")
