"""C26 X-ray fluorescence spectra: element lines, linear model, fits and area maps"""
import copy
import math

import lmfit.model
import lmfit.parameter
import numpy as np
import scipy.optimize
from skbeam.core.constants import XrfElement
from skbeam.core.fitting import background, lineshapes
from skbeam.core.fitting import xrf_model as xm
from skbeam.core.fitting.base.parameter_data import get_para
from symx.patch import nnls_key

from .C22 import gauss, sq, width
from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["exp, sqrt, log and erfc are uninterpreted functions (equal arguments give equal values); xraylib's tables are the installed ones, at the stated incident energies",
               "scipy.optimize.nnls is an uninterpreted function of the normal equations (A'A, A'b, b'b) of the problem it is given",
               "lmfit runs as installed, except that Parameter.setup_bounds (the internal variables of the minimiser, not used here) is skipped for symbolic values; the minimiser of model_fit is not run",
               "the process pool is a stand-in that runs the submitted calls in this process, in submission order or in reverse"]

_setup_bounds = lmfit.parameter.Parameter.setup_bounds


def setup_bounds(self):
    return 0.0 if is_sym(self._val) or is_sym(self.min) or is_sym(self.max) else _setup_bounds(self)


lmfit.parameter.Parameter.setup_bounds = setup_bounds
EXTRA = lambda: [lmfit.model, lmfit.parameter]
GLOBAL = ("e_offset", "e_linear", "e_quadratic", "fwhm_offset", "fwhm_fanoprime")


def spar(c, energy=12.0, names=GLOBAL):
    p = copy.deepcopy(get_para())
    p["coherent_sct_energy"]["value"] = energy
    p["coherent_sct_energy"]["max"] = 60.0
    for n in names:
        d = p[n]
        # peaks may be much wider than the usual bounds
        d["value"] = c.real(n, d["min"], 4.0 if n == "fwhm_offset" else d["max"])
        d["max"] = 4.0 if n == "fwhm_offset" else d["max"]
    return p


def val(p, n):
    return p[n]["value"]


def energy_of(p, ch):
    return add(val(p, "e_offset"), add(mul(ch, val(p, "e_linear")), mul(sq(ch), val(p, "e_quadratic"))))


def peak(x, area, en, ratio, off, fano, eps, dc=0.0, ds=0.0, adj=1.0):
    c0 = add(en, dc)
    s = add(ds, width(c0, off, fano, eps))
    return mul(mul(gauss(x, area, c0, s), ratio), adj)


def flat_params(p):
    out = []
    for k, d in sorted(p.items()):
        if k == "non_fitting_values":
            out.append((k, repr(d)))
        else:
            out.append((k, sorted((q, v) for q, v in d.items())))
    return out


def same_params(c, a, p, label):
    b = flat_params(p)
    ok = len(a) == len(b)
    for x, y in zip(a, b):
        ok = ok and x[0] == y[0]
        if ok and x[0] != "non_fitting_values":
            ok = len(x[1]) == len(y[1]) and all(u[0] == v[0] and (u[1] is v[1] or not (is_sym(u[1]) or is_sym(v[1])) and u[1] == v[1]) for u, v in zip(x[1], y[1]))
    c.check(ok, label)


@HARNESSES.each({"default": False, "epsilon": True}, functions=["xrf_model.element_peak_xrf"], bounds="any 2 channels (reals or integers), any area, position, width, ratios, calibration and detector parameters")
def element_peak(c, given):
    ints = c.choice("ints", [False, True])
    x = c.ints("xi", 2, -9, 9) if ints else c.reals("x", 2, -9, 9)
    area, cen = c.real("area", -9, 9), c.real("center", 0.5, 40)
    dc, ds = c.real("dc", -0.125, 0.125), c.real("ds", -0.0078125, 0.25)
    ra, adj = c.real("ratio", 0, 4), c.real("adjust", 0, 4)
    off, fano = c.real("fwhm_offset", 0.0625, 2), c.real("fano", 0.0009765625, 1)
    o, l, q = c.real("o", -2, 2), c.real("l", 0.0078125, 2), c.real("q", -0.125, 0.125)
    eps = c.real("eps", 1, 4) if given else 2.96
    sn = snapshot(x)
    r = xm.element_peak_xrf(x, area, cen, dc, ds, ra, adj, off, fano, o, l, q, *([eps] if given else []))
    unchanged(c, sn, [x], "channels are not changed")
    en = [add(o, add(mul(v, l), mul(sq(v), q))) for v in elems(x)]
    c.check_eq(elems(r), [peak(v, area, cen, ra, off, fano, eps, dc, ds, adj) for v in en], "Gaussian at the shifted line energy, detector width plus adjustment, scaled by both ratios", tol=1e-7)


def lines(element, fam, energy):
    """(line, energy, ratio to the first line) of every activated line of a family"""
    e = XrfElement(element)
    cs = e.cs(energy)
    first = fam.lower() + "a1"
    if cs[first] == 0:
        return []
    return [(n, en, cs[n] / cs[first]) for n, en in e.emission_line.all if n[0] == fam.lower() and cs[n] != 0]


def column(p, name, ch, area, energy, adj=None):
    """expected spectrum of one elemental line, user peak or pileup peak"""
    g = (val(p, "fwhm_offset"), val(p, "fwhm_fanoprime"), p["non_fitting_values"]["epsilon"])
    x = energy_of(p, ch)
    a = lambda key, d: adj[key] if adj and key in adj else d
    if "-" in name:
        en = 0.0
        for part in name.split("-"):
            el, ln = part.split("_")
            en = en + XrfElement(el).emission_line[ln.lower()]
        pre = "pileup_" + name.replace("-", "_")
        todo = [(pre, en, 1.0)]
    elif name.startswith("user"):
        todo = [(name, 5.0, 1.0)]
    else:
        el, fam = name.split("_")
        todo = [("%s_%s" % (el, n), en, r) for n, en, r in lines(el, fam, energy)]
    t = 0.0
    for pre, en, r in todo:
        t = add(t, peak(x, area, en, r, *g, dc=a(pre + "_delta_center", 0.0), ds=a(pre + "_delta_sigma", 0.0), adj=a(pre + "_ratio_adjust", 1.0)))
    return t


CASES = {"K": (["Fe_K"], 12.0), "Kall": (["Mo_K"], 30.0), "L": (["Pt_L"], 12.0), "M": (["Pt_M"], 12.0), "user": (["user_peak1"], 12.0), "pileup": (["Fe_Ka1-Ca_Kb1"], 12.0),
         "several": (["Cu_K", "Ag_K", "Ca_K"], 9.5), "none": (["Pt_L", "Au_L"], 9.0), "empty": ([], 12.0)}


@HARNESSES.each(CASES, functions=["xrf_model.construct_linear_model", "xrf_model.ModelSpectrum"], bounds="any channel, any calibration and detector parameters within their bounds; K, L and M families, user and pileup peaks, families that are not activated", extra=EXTRA, quick_s=200, prove_timeout=15000)
def linear_model(c, names, energy):
    p = spar(c, energy)
    keep = flat_params(p)
    ch = c.reals("ch", 1, 0, 1200)
    area = c.choice("area", [100, 1.0]) if names and len(names) == 1 else 100
    sel, m, ar = xm.construct_linear_model(ch, p, list(names), **({} if area == 100 else {"default_area": area}))
    same_params(c, keep, p, "parameters are not changed")
    act = [n for n in names if "-" in n or n.startswith("user") or lines(*n.split("_"), energy)]
    c.check(list(sel) == act + ["compton", "elastic"], "the activated lines in the given order, then the scattering peaks")
    c.check(tuple(m.shape) == (1, len(act) + 2), "one column per component")
    c.check(set(ar) == set(sel), "an area per component")
    v = elems(ch)[0]
    for j, n in enumerate(act):
        c.check_eq(ar[n], area, "unit area", exact=True)
        c.check_eq(at(m, 0, j), column(p, n, v, float(area), energy), "sum of all activated lines with their branching ratios", tol=1e-6)
    g = dict((k, val(p, k)) for k in GLOBAL)
    eps = p["non_fitting_values"]["epsilon"]
    j = len(act)
    comp = lineshapes.compton(ch, val(p, "compton_amplitude"), energy, compton_angle=val(p, "compton_angle"), compton_fwhm_corr=val(p, "compton_fwhm_corr"),
                              compton_f_step=val(p, "compton_f_step"), compton_f_tail=val(p, "compton_f_tail"), compton_gamma=val(p, "compton_gamma"),
                              compton_hi_f_tail=val(p, "compton_hi_f_tail"), compton_hi_gamma=val(p, "compton_hi_gamma"), epsilon=eps, **g)
    c.check_eq(at(m, 0, j), elems(comp)[0], "Compton peak with its parameters", tol=1e-6)
    c.check_eq(ar["compton"], val(p, "compton_amplitude"), "Compton amplitude", exact=True)
    el = gauss(energy_of(p, v), val(p, "coherent_sct_amplitude"), energy, width(energy, g["fwhm_offset"], g["fwhm_fanoprime"], eps))
    c.check_eq(at(m, 0, j + 1), el, "elastic peak at the incident energy", tol=1e-6)
    c.check_eq(ar["elastic"], val(p, "coherent_sct_amplitude"), "elastic amplitude", exact=True)


ADJ = {"K": "Fe_K", "L": "Pt_L", "M": "Pt_M", "user": "user_peak1", "pileup": "Fe_Ka1-Ca_Kb1"}


@HARNESSES.each({"%s.%s" % (k, t): (v, t) for k, v in ADJ.items() for t in ("pos", "width", "ratio", "area")}, functions=["xrf_model.ParamController", "xrf_model.construct_linear_model"], bounds="an adjustment of any line of the family by any amount within its bounds, set through the parameter dictionary of a ParamController", extra=EXTRA, quick_s=200, prove_timeout=15000)
def adjusted(c, name, kind):
    p = spar(c, 12.0, ("e_linear", "fwhm_offset"))
    pc = xm.ParamController(p, [name])
    q = pc.params
    suffix = {"pos": "_delta_center", "width": "_delta_sigma", "ratio": "_ratio_adjust", "area": "_area"}[kind]
    new = [k for k in q if k not in p and k.endswith(suffix)]
    if name in ("user_peak1",):
        pres = [name]
    elif "-" in name:
        pres = ["pileup_" + name.replace("-", "_")]
    else:
        el, fam = name.split("_")
        pres = ["%s_%s" % (el, n) for n, _, _ in lines(el, fam, 12.0)]
        if kind == "area":
            pres = pres[:1]
    c.check(sorted(new) == sorted(r + suffix for r in pres), "one parameter per activated line")
    k = c.choice("which", list(range(len(pres))))
    key = pres[k] + suffix
    d = q[key]
    lo, hi = (1.0, 1000.0) if kind == "area" else (d["min"], d["max"])
    t = d["value"] = c.real("value", lo, hi)
    at_ch = {"K": 640.0, "L": 944.0, "M": 205.0}.get(name[-1], 500.0 if name.startswith("user") else 1041.0)
    if kind == "area":
        # any other adjustment stays at its default
        sel, m, ar = xm.construct_linear_model(np.array([at_ch]), q, [name])
        c.check_eq(ar[name], t, "area of the first line", exact=True)
        want = column(q, name, at_ch, t, 12.0)
    else:
        q[[x for x in q if x.endswith("_area")][0]]["value"] = 100.0
        sel, m, ar = xm.construct_linear_model(np.array([at_ch]), q, [name])
        adj = {key: t}
        if pres[k].endswith("_ka1") and kind in ("pos", "width"):
            # K alpha 2 follows K alpha 1
            adj[pres[k][:-1] + "2" + suffix] = t
        if pres[k].endswith("_ka2") and kind in ("pos", "width"):
            adj = {}
        want = column(q, name, at_ch, 100.0, 12.0, adj)
    c.check_eq(at(m, 0, 0), want, "the adjusted line", tol=1e-6)


@HARNESSES.each({"K": (["Fe_K"],), "mixed": (["Ca_K", "user_peak1"],), "inactive": (["Ag_K", "Pt_M"],), "pileup": (["Fe_Ka1-Fe_Ka1", "Fe_K"],)}, functions=["xrf_model.ModelSpectrum.assemble_models"], bounds="any channel; after assembly the calibration, detector and incident energy parameters take any values: every element line and the elastic peak follow", extra=EXTRA, quick_s=200, prove_timeout=15000)
def assembled(c, names):
    p = spar(c, 12.0, ())
    p["fwhm_offset"]["max"] = 4.0
    keep = flat_params(p)
    ms = xm.ModelSpectrum(p, names)
    ms.assemble_models()
    same_params(c, keep, p, "parameters are not changed")
    pars = ms.mod.make_params()
    q = copy.deepcopy(p)
    for n in GLOBAL + ("coherent_sct_energy",):
        d = q[n]
        lo, hi = (10.0, 14.0) if n == "coherent_sct_energy" else (d["min"], 4.0 if n == "fwhm_offset" else d["max"])
        d["value"] = c.real("new_" + n, lo, hi)
        pars[n].min, pars[n].max = -math.inf, math.inf
        pars[n].value = d["value"]
    ch = c.choice("ch", [640.0, 1180.0])
    r = ms.mod.eval(pars, x=np.array([ch]))
    g = dict((k, val(q, k)) for k in GLOBAL)
    eps = q["non_fitting_values"]["epsilon"]
    e0 = val(q, "coherent_sct_energy")
    t = elems(lineshapes.compton(np.array([ch]), val(q, "compton_amplitude"), e0, compton_angle=val(q, "compton_angle"), compton_fwhm_corr=val(q, "compton_fwhm_corr"),
                                 compton_f_step=val(q, "compton_f_step"), compton_f_tail=val(q, "compton_f_tail"), compton_gamma=val(q, "compton_gamma"),
                                 compton_hi_f_tail=val(q, "compton_hi_f_tail"), compton_hi_gamma=val(q, "compton_hi_gamma"), epsilon=eps, **g))[0]
    t = add(t, gauss(energy_of(q, ch), val(q, "coherent_sct_amplitude"), e0, width(e0, g["fwhm_offset"], g["fwhm_fanoprime"], eps)))
    for n in names:
        if "-" in n or n.startswith("user") or lines(*n.split("_"), 12.0):
            t = add(t, column(q, n, ch, 1e5, 12.0))
    c.check_eq(elems(r)[0], t, "sum of all components at the new parameters", tol=1e-5)


def nnls(M, y, w=None):
    """reference: weighted non-negative least squares"""
    m, n = len(M), len(M[0])
    w = w or [1.0] * m
    if any(is_sym(v) for row in M for v in row) or any(is_sym(v) for v in y) or any(is_sym(v) for v in w):
        s = [core.sqrt(v) if v != 1.0 or is_sym(v) else 1.0 for v in w]
        A = [[mul(s[i], v) for v in M[i]] for i in range(m)]
        key = nnls_key(A, [mul(s[i], y[i]) for i in range(m)])
        return [core.uf("nnls%d_%d" % (n, j), *key[:-1]) for j in range(n)], core.uf("nnls%d_res" % n, *key)
    s = np.sqrt(np.array(w, dtype=float))
    x, r = scipy.optimize.nnls(np.array(M, dtype=float) * s[:, None], np.array(y, dtype=float) * s)
    return list(x), r


WT = {"none": None, "plain": [4.0, 1.0, 0.25], "zero": [1.0, 0.0, 9.0]}


@HARNESSES.each({k: k for k in WT}, functions=["xrf_model.nnls_fit"], bounds="any spectrum of 3 channels, any 3x2 matrix, stated weights", quick_s=100)
def weighted_fit(c, k):
    y, M = c.reals("y", 3, 0, 100), c.reals("M", (3, 2), 0, 10)
    w = None if WT[k] is None else np.array(WT[k])
    sn = snapshot(y, M)
    x, res = xm.nnls_fit(y, M, weights=w) if w is not None or c.choice("kw", [False, True]) else xm.nnls_fit(y, M)
    unchanged(c, sn, [y, M], "inputs are not changed")
    wx, wr = nnls([[at(M, i, j) for j in range(2)] for i in range(3)], elems(y), WT[k])
    c.check_eq(elems(x), wx, "minimiser of the weighted squares", tol=1e-6)
    c.check_eq(res, wr, "norm of the weighted residual", tol=1e-6)


@HARNESSES.each({"plain": (["Fe_K", "Ca_K"], None), "weights": (["Fe_K"], [1.0, 4.0, 0.25]), "inactive": (["Ag_K", "Cu_K"], None)}, functions=["xrf_model.linear_spectrum_fitting"], bounds="3 channels around 640 with any counts in [0,1000]; stated lines and weights; energy calibration within bounds", quick_s=200, extra=EXTRA)
def linear_fit(c, names, w):
    c.lazy_masks = True
    p = spar(c, 12.0, ())
    p["e_quadratic"]["value"] = 2.0 ** -20
    p["e_offset"]["value"] = 0.0078125
    x = np.array([630.0, 640.0, 660.0])
    y = c.reals("y", 3, 0, 1000)
    keep, sn = flat_params(p), snapshot(y)
    en, res, area = xm.linear_spectrum_fitting(x, y, p, list(names), **({} if w is None else {"weights": np.array(w)}))
    same_params(c, keep, p, "parameters are not changed")
    unchanged(c, sn, [y], "the spectrum is not changed")
    c.check_eq(elems(en), [energy_of(p, v) for v in x], "energy of the channels", tol=1e-9)
    bg = elems(background.snip_method(y, val(p, "e_offset"), val(p, "e_linear"), val(p, "e_quadratic"), width=p["non_fitting_values"]["background_width"]))
    sel, M, ar = xm.construct_linear_model(x, p, list(names))
    n = len(sel)
    net = [sub(a, b) for a, b in zip(elems(y), bg)]
    wx, _ = nnls([[at(M, i, j) for j in range(n)] for i in range(3)], net, w)
    c.check(list(res)[-1] == "background" and list(area)[-1] == "background", "background is listed last")
    c.check_eq(elems(res["background"]), bg, "the SNIP background", tol=1e-6)
    c.check_eq(area["background"], ssum(bg), "its sum", tol=1e-6)
    order = [s for s in sel if s in res]
    c.check(list(res) == order + ["background"] and list(area) == list(res), "components in the order of the model")
    for j, s in enumerate(sel):
        prof = [mul(wx[j], at(M, i, j)) for i in range(3)]
        if s in res:
            c.check_eq(elems(res[s]), prof, "fitted profile", tol=1e-5)
            c.check_eq(area[s], mul(wx[j], ar[s]), "fitted area", tol=1e-5)
        else:
            c.check_eq(ssum(prof), 0.0, "only components that do not contribute are left out", tol=1e-9)


class Pool:
    """runs the submitted calls in this process; results are computed in submission order or in reverse"""
    reverse = False

    def __init__(self, *a, **k):
        self.todo = []

    class Res:
        def __init__(self, pool, f, a, k):
            self.pool, self.call, self.val, self.done = pool, (f, a, k), None, False

        def run(self):
            if not self.done:
                f, a, k = self.call
                self.val, self.done = f(*a, **(k or {})), True

        def get(self, timeout=None):
            for r in (reversed(self.pool.todo) if Pool.reverse else self.pool.todo):
                r.run()
            return self.val

        def wait(self, timeout=None):
            self.get()

        def ready(self):
            return self.done

    def apply_async(self, f, args=(), kwds=None, callback=None, **k):
        r = Pool.Res(self, f, tuple(args), kwds)
        self.todo.append(r)
        if callback:
            callback(r.get())
        return r

    def apply(self, f, args=(), kwds=None):
        return self.apply_async(f, args, kwds).get()

    def starmap(self, f, it, *a, **k):
        rs = [self.apply_async(f, tuple(x)) for x in it]
        return [r.get() for r in rs]

    def map(self, f, it, *a, **k):
        return self.starmap(f, [(x,) for x in it])

    imap = map

    def starmap_async(self, f, it, *a, **k):
        it = list(it)
        return self.apply_async(lambda: self.starmap(f, it))

    def map_async(self, f, it, *a, **k):
        it = list(it)
        return self.apply_async(lambda: self.map(f, it))

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def pool(f):
    import multiprocessing
    old = multiprocessing.Pool
    multiprocessing.Pool = Pool
    try:
        return f()
    finally:
        multiprocessing.Pool = old


def pixel(y, M, p, snip):
    ys = elems(y)
    n = M.shape[1]
    m = len(ys)
    bg = [0.0] * m
    if snip:
        bg = elems(background.snip_method(y, val(p, "e_offset"), val(p, "e_linear"), val(p, "e_quadratic"), width=p["non_fitting_values"]["background_width"]))
    x, r = nnls([[at(M, i, j) for j in range(n)] for i in range(m)], [sub(a, b) for a, b in zip(ys, bg)])
    mean = smean(ys)
    sst = ssum(sq(sub(v, mean)) for v in ys)
    return x + [ssum(bg), sub(1.0, div(sq(r), sst))]


@HARNESSES.each({"plain": (2, False, False), "snip": (2, True, False), "one": (1, False, False), "map": (2, False, True), "map.default": (2, None, True), "map.snip": (1, True, True)}, functions=["xrf_model.fit_per_line_nnls", "xrf_model.fit_pixel_multiprocess_nnls"], bounds="1 to 2 pixels per row, 1 or 2 rows, 3 channels of any counts (not all equal), any 3x2 matrix; calls complete in either order", quick_s=200, extra=EXTRA)
def pixel_fits(c, npix, snip, maps):
    c.lazy_masks = True
    p = spar(c, 12.0, ())
    if snip:
        M = np.array([[1.0, 0.5], [0.25, 2.0], [0.125, 0.0]])
    else:
        M = c.reals("M", (3, 2), 0, 10)
    rows = 2 if maps else 1
    D = c.reals("d", (rows, npix, 3), 0, 1000)
    for i in range(rows):
        for j in range(npix):
            c.assume(ge(core.absolute(sub(at(D, i, j, 0), at(D, i, j, 1))), 1.0))
    sn = snapshot(D, M)
    if maps:
        Pool.reverse = c.choice("reverse", [False, True])
        r = pool(lambda: xm.fit_pixel_multiprocess_nnls(D, M, p, **({} if snip is None else {"use_snip": snip})))
        c.check(tuple(r.shape) == (rows, npix, 4), "one record per pixel")
    else:
        r = xm.fit_per_line_nnls(D[0], M, p, snip)
        c.check(tuple(r.shape) == (npix, 4), "one record per pixel")
        r = r.reshape((1, npix, 4))
    unchanged(c, sn, [D, M], "inputs are not changed")
    for i in range(rows):
        for j in range(npix):
            c.check_eq([at(r, i, j, k) for k in range(4)], pixel(D[i, j], M, p, bool(snip)), "weights, summed background and coefficient of determination of each pixel", tol=1e-6)


@HARNESSES.each({"total": False, "first": True}, functions=["xrf_model.calculate_area", "xrf_model.get_relative_cs_ratio"], bounds="any 2x1 map of 3 components, any 2x3 matrix; K, L and M lines and other components at the stated incident energies", quick_s=60)
def area_maps(c, first):
    sel = c.choice("sel", [["Fe_K", "compton", "elastic"], ["Pt_L", "Pt_M", "elastic"], ["Mo_K", "user_peak1", "Fe_Ka1-Fe_Ka1"]])
    energy = c.choice("energy", [12.0, 30.0])
    if sel[0] == "Mo_K" and energy < 20:
        c.assume(False)
    p = spar(c, energy, ())
    R, M = c.reals("r", (2, 1, 5), -9, 9), c.reals("M", (2, 3), 0, 9)
    sn = snapshot(R, M)
    names = list(sel)
    out = xm.calculate_area(names, M, R, p, **({"first_peak_area": True} if first else {}))
    unchanged(c, sn, [R, M], "inputs are not changed")
    c.check(names == sel, "the list of components is not changed")
    c.check(set(out) == set(sel) | {"snip_bkg", "r_squared"}, "a map per component, the background and the coefficient of determination")
    for j, n in enumerate(sel):
        ratio = 1.0
        if first and "-" not in n and n[-2:] in ("_K", "_L", "_M"):
            el, fam = n.split("_")
            cs = XrfElement(el).cs(energy)
            ratio = cs[fam.lower() + "a1"] / sum(cs[k] for k, _ in XrfElement(el).emission_line.all if k[0] == fam.lower())
            c.check_eq(xm.get_relative_cs_ratio(n, energy), ratio, "share of the first line", tol=1e-9)
        col = add(at(M, 0, j), at(M, 1, j))
        c.check_eq(elems(out[n]), [mul(mul(at(R, i, 0, j), col), ratio) for i in range(2)], "fitted weight times the area of the profile", tol=1e-6)
    c.check_eq(elems(out["snip_bkg"]), [at(R, i, 0, 3) for i in range(2)], "background map", exact=True)
    c.check_eq(elems(out["r_squared"]), [at(R, i, 0, 4) for i in range(2)], "coefficient of determination", exact=True)
