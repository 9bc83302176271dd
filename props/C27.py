"""C27 parameters of fluorescence fits: strategies, constraints, ranges and results"""
import copy
import math

import lmfit.model
import lmfit.parameter
import numpy as np
from skbeam.core.constants import XrfElement
from skbeam.core.fitting import xrf_model as xm
from skbeam.core.fitting.base import parameter_data as pd
from skbeam.core.fitting.base.parameter_data import get_para

from .C26 import EXTRA, flat_params, lines, same_params, spar
from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["lmfit runs as installed, except that Parameter.setup_bounds (the internal variables of the minimiser, not used here) is skipped for symbolic values", "xraylib's tables are the installed ones, at the stated incident energies; histories are explored over every sequence of the listed operations"]

COUNT = [0]
STRATEGIES = {"linear": pd.linear, "adjust_element": pd.adjust_element, "e_calibration": pd.e_calibration, "fit_with_tail": pd.fit_with_tail, "free_more": pd.free_more}
DEFAULTS = {"area": ("none", 1000.0, 0.0, 1e9), "pos": ("fixed", 0.0, -0.005, 0.005), "ratio": ("fixed", 1.0, 0.1, 5.0), "width": ("fixed", 0.0, -0.02, 0.02)}
SUFFIX = {"pos": "delta_center", "width": "delta_sigma", "ratio": "ratio_adjust"}


def names_of(element, kind, energy):
    """parameters of one kind of one element, as the fit model names them"""
    if "user" in element.lower():
        pre = [element]
    elif "-" in element:
        pre = ["pileup_" + element.replace("-", "_")]
    else:
        el, fam = element.split("_")
        if kind == "area":
            return ["%s_%sa1_area" % (el, fam.lower())]
        pre = ["%s_%s" % (el, n) for n, _, _ in lines(el, fam, energy)]
    return ["%s_%s" % (q, "area" if kind == "area" else SUFFIX[kind]) for q in pre]


def state(params):
    return {k: dict(v) for k, v in params.items() if k != "non_fitting_values"}


OPS = [("add", "pos", "lohi"), ("add", "area", "lo"), ("add", "ratio", None), ("update", None, "hi"), ("strategy", "linear", None), ("strategy", "free_more", None)]


@HARNESSES.each({"K": ("Fe_K", 12.0), "L": ("Pt_L", 12.0), "M": ("Pt_M", 12.0), "user": ("user_peak1", 12.0), "pileup": ("Fe_Ka1-Fe_Ka1", 12.0), "inactive": ("Ag_K", 12.0), "many": ("Mo_K", 30.0)}, functions=["xrf_model.ParamController"], bounds="every history of up to 3 operations (constraints on position, area, ratio or several at once, two strategies) on one element, added at the start or later; any calibration offset", quick_s=120)
def controller(c, element, energy):
    p = spar(c, energy, ("e_offset",))
    keep = flat_params(p)
    early = c.choice("early", [True, False])
    els = ["Ca_K"] + ([element] if early else [])
    given = list(els)
    pc = xm.ParamController(p, given)
    c.check(given == els, "the list of elements is not changed")
    same_params(c, keep, p, "the given parameters are not changed")
    model = state(p)
    strat = {}

    def put(el, kind, con):
        for n in names_of(el, kind, energy):
            b, v, lo, hi = DEFAULTS[kind]
            model[n] = {"bound_type": b, "value": v, "min": lo, "max": hi}
            if con is not None:
                strat[n] = con

    for el in els:
        for k in ("pos", "width", "area", "ratio"):
            put(el, k, None)
    for t in range(3):
        op = c.choice("op%d" % t, [None] + OPS) if t else c.choice("op0", OPS)
        if op is None:
            break
        if op[0] == "add":
            if op[2] is None:
                pc.add_param(op[1], element)
            else:
                pc.add_param(op[1], element, op[2])
            put(element, op[1], op[2])
        elif op[0] == "update":
            pc.update_element_prop([element, "Ca_K"], pos="fixed", width=op[2])
            for el in (element, "Ca_K"):
                put(el, "pos", "fixed")
                put(el, "width", op[2])
        else:
            pc.set_strategy(op[1])
            for n, d in model.items():
                d["bound_type"] = STRATEGIES[op[1]].get(n, strat.get(n, "fixed"))
    got = state(pc.params)
    c.check(set(got) == set(model), "the parameters of the activated lines, and no others")
    for n in model:
        for q in ("bound_type", "value", "min", "max"):
            a, b = got[n][q], model[n][q]
            c.check(a is b or (not is_sym(a) and not is_sym(b) and a == b), "value, limits and bound type of %s" % ("a global parameter" if n in p else "an element parameter"))
    same_params(c, keep, p, "the given parameters are not changed")


@HARNESSES.add(functions=["xrf_model.ParamController.add_param"], bounds="names that are no line family, peak or pileup")
def malformed(c):
    pc = xm.ParamController(spar(c, 12.0, ()), [])
    bad = c.choice("bad", ["Fe", "FeK12", "peak_1"])
    c.check(raises(c, Exception, pc.add_param, "area", bad), "malformed names are rejected")


@HARNESSES.each({n: n for n in ("compton_angle", "e_offset", "fwhm_offset", "compton_amplitude", "coherent_sct_amplitude")}, functions=["xrf_model.ModelSpectrum", "xrf_model._set_parameter_hint"], bounds="every bound type; any value and limits with min < value < max", extra=EXTRA, quick_s=90)
def hints(c, name):
    p = spar(c, 12.0, ())
    bt = c.choice("bound", ["none", "fixed", "lo", "hi", "lohi", "other"])
    v, lo, hi = c.real("value", -1, 1), c.real("min", -4, -2), c.real("max", 2, 4)
    p[name].update(bound_type=bt, value=v, min=lo, max=hi)
    try:
        ms = xm.ModelSpectrum(p, [])
    except ValueError:
        c.check(bt == "other", "only unknown bound types are rejected")
        return
    c.check(bt != "other", "unknown bound types are rejected")
    todo = []
    if name != "coherent_sct_amplitude":
        todo.append((ms.compton.make_params(), name))
    if not name.startswith("compton"):
        todo.append((ms.elastic.make_params(), "elastic_" + name))
    for pars, n in todo:
        q = pars[n]
        c.check(q.vary is (bt != "fixed"), "only a fixed parameter does not vary")
        c.check_eq(q.value, v, "start value", exact=True)
        if bt in ("lo", "lohi"):
            c.check_eq(q.min, lo, "lower limit", exact=True)
        else:
            c.check(q.min == -math.inf, "no lower limit")
        if bt in ("hi", "lohi"):
            c.check_eq(q.max, hi, "upper limit", exact=True)
        else:
            c.check(q.max == math.inf, "no upper limit")


@HARNESSES.add(functions=["xrf_model.register_strategy", "xrf_model.set_parameter_bound"], bounds="every history of two registrations under two names, then use; any subset of four parameters listed by each strategy")
def strategies(c):
    COUNT[0] += 1
    saved = dict(STRATEGIES)
    mine = "mine%d" % COUNT[0]
    try:
        a = {"p": "lo", "q": "hi"}
        b = {"p": "lohi"}
        reg = dict(saved)
        for t in range(2):
            k = c.choice("key%d" % t, [mine, "linear"])
            s = c.choice("strategy%d" % t, [0, 1])
            s = (a, b)[s]
            ov = c.choice("overwrite%d" % t, ["default", True, False])
            refused = ov is False and k in reg and reg[k] is not s
            kw = {} if ov == "default" else {"overwrite": ov}
            c.check(raises(c, RuntimeError, xm.register_strategy, k, s, **kw) is bool(refused), "an existing strategy is only replaced when asked")
            if not refused:
                reg[k] = s
        v = c.real("v", -1, 1)
        params = {n: {"bound_type": "none", "value": v, "min": 0, "max": 1} for n in ("p", "q", "r", "s")}
        params["non_fitting_values"] = {"bound_type": "x"}
        use = c.choice("use", [mine, "linear", "free_more"])
        extra = c.choice("extra", [None, {"r": "lo", "p": "hi"}])
        if use not in reg:
            c.check(raises(c, KeyError, xm.set_parameter_bound, params, use), "unknown strategies are rejected")
            return
        if extra is None:
            xm.set_parameter_bound(params, use)
        else:
            xm.set_parameter_bound(params, use, extra)
        for n in ("p", "q", "r", "s"):
            c.check(params[n]["bound_type"] == reg[use].get(n, (extra or {}).get(n, "fixed")), "bound of the strategy, else the given one, else fixed")
            c.check_eq(params[n]["value"], v, "values are kept", exact=True)
        c.check(params["non_fitting_values"] == {"bound_type": "x"}, "other entries are kept")
        got = xm.extract_strategy(params, "bound_type")
        c.check(got == {n: params[n]["bound_type"] for n in "pqrs"}, "extracting gives back the strategy")
        gv = xm.extract_strategy(params, "value")
        c.check(set(gv) == set("pqrs"), "fitting parameters only")
        c.check_eq([gv[n] for n in "pqrs"], [v] * 4, "extracted values", exact=True)
    finally:
        xm.register_strategy("linear", pd.linear)


class Fit:
    def __init__(self, values):
        self.values = values


@HARNESSES.add(functions=["xrf_model.update_parameter_dict"], bounds="any fitted values; plain, pileup, elastic and missing parameters")
def updated(c):
    names = ["e_offset", "pileup_Fe_Ka1-Fe_Ka1_area", "coherent_sct_amplitude", "coherent_sct_energy", "missing", "Fe_ka1_area"]
    fit = ["e_offset", "pileup_Fe_Ka1_Fe_Ka1_area", "elastic_coherent_sct_amplitude", "elastic_coherent_sct_energy", None, "Fe_ka1_area"]
    have = c.choice("without", [None] + list(range(6)))
    new = [c.real("new%d" % k, -9, 9) for k in range(6)]
    old = [c.real("old%d" % k, -9, 9) for k in range(6)]
    params = {n: {"value": o, "min": -1.0, "max": 2.0, "bound_type": "lo"} for n, o in zip(names, old)}
    params["non_fitting_values"] = {"x": 1}
    vals = {f: v for k, (f, v) in enumerate(zip(fit, new)) if f and k != have}
    vals["coherent_sct_energy"] = vals["coherent_sct_amplitude"] = 77.0
    vals["other"] = 5.0
    r = Fit(dict(vals))
    xm.update_parameter_dict(params, r)
    c.check(set(params) == set(names) | {"non_fitting_values"}, "no parameters are added or lost")
    for k, n in enumerate(names):
        want = old[k] if fit[k] is None or k == have else new[k]
        c.check_eq(params[n]["value"], want, "fitted values, others kept", tol=1e-12)
        c.check((params[n]["min"], params[n]["max"], params[n]["bound_type"]) == (-1.0, 2.0, "lo"), "limits are kept")
    c.check(params["non_fitting_values"] == {"x": 1}, "other entries are kept")


@HARNESSES.each({k: k for k in ("Fe_K", "Pt_L", "Pt_M")}, functions=["xrf_model.sum_area"], bounds="any subset of 3 lines of the family present in the results, any areas and ratios; lines of other families present")
def total_area(c, el):
    name, fam = el.split("_")
    tr = {"K": ["ka1", "kb1", "kb5"], "L": ["la1", "lg4", "ln"], "M": ["ma1", "mb", "mg"]}[fam]
    vals = {"%s_%s_%s" % (name, o, s): 1000.0 for o in ("ka2", "la2", "ma2") if o[0] != fam.lower() for s in ("area", "ratio", "ratio_adjust")}
    want = 0.0
    for i, t in enumerate(tr):
        if c.choice("has%d" % i, [True, False]):
            q = [c.real("%s%d" % (s, i), 0, 9) for s in ("area", "ratio", "adjust")]
            for s, v in zip(("area", "ratio", "ratio_adjust"), q):
                vals["%s_%s_%s" % (name, t, s)] = v
            want = add(want, mul(mul(q[0], q[1]), q[2]))
    c.check_eq(xm.sum_area(el, Fit(vals)), want, "sum over the lines of the family", tol=1e-9)


@HARNESSES.add(functions=["xrf_model.trim"], bounds="any 3 samples and limits, in any order")
def trimmed(c):
    x, y = c.reals("x", 3, -4, 4), c.reals("y", 3, -9, 9)
    lo, hi = c.real("lo", -4, 4), c.real("hi", -4, 4)
    sn = snapshot(x, y)
    a, b = xm.trim(x, y, lo, hi)
    unchanged(c, sn, [x, y], "inputs are not changed")
    keep = [i for i in range(3) if bool(and_(ge(at(x, i), lo), le(at(x, i), hi)))]
    c.check(tuple(a.shape) == (len(keep),) and tuple(b.shape) == (len(keep),), "number of samples")
    c.check_eq(elems(a), [at(x, i) for i in keep], "samples within the closed range, in order", exact=True)
    c.check_eq(elems(b), [at(y, i) for i in keep], "their values", exact=True)


@HARNESSES.add(functions=["xrf_model.define_range"], bounds="4 channels, any range and offset; linear term 0.5, 1 or 2", quick_s=90)
def ranged(c):
    d = c.reals("d", 4, 0, 99)
    a1 = c.choice("a1", [0.5, 1.0, 2.0])
    lo, hi, a0 = c.real("lo", -4, 9), c.real("hi", -4, 9), c.real("a0", -2, 2)
    x, y = xm.define_range(d, lo, hi, a0, a1)
    L, H = div(sub(lo, a0), a1), div(sub(hi, a0), a1)
    half = 0.5
    # the nearest channels to the limits; exactly half way the even one
    keep = []
    for i in range(4):
        up = lt(sub(L, i), half) if i % 2 else le(sub(L, i), half)
        dn = lt(sub(i, H), half) if i % 2 else le(sub(i, H), half)
        if bool(and_(up, dn)):
            keep.append(i)
    c.check(tuple(x.shape) == (len(keep),) and tuple(y.shape) == (len(keep),), "number of channels")
    c.check_eq(elems(x), keep, "channels from the one nearest the lower to the one nearest the upper limit", exact=True)
    c.check_eq(elems(y), [at(d, i) for i in keep], "their counts", exact=True)


@HARNESSES.each({"default": False, "given": True}, functions=["xrf_model.compute_escape_peak"], bounds="any spectrum of 3 channels, any ratio and calibration; silicon or any escape energy")
def escape(c, given):
    s, r = c.reals("s", 3, 0, 99), c.real("ratio", 0, 2)
    o, l, q = c.real("o", -1, 1), c.real("l", 0.001, 1), c.real("q", -0.1, 0.1)
    p = {"e_offset": {"value": o}, "e_linear": {"value": l}, "e_quadratic": {"value": q}}
    e = c.real("e", 0.5, 20) if given else 1.73998
    sn = snapshot(s)
    x, y = xm.compute_escape_peak(s, r, p, *([e] if given else []))
    unchanged(c, sn, [s], "the spectrum is not changed")
    c.check_eq(elems(x), [sub(add(o, add(mul(l, i), mul(q, i * i))), e) for i in range(3)], "energies shifted by the escape energy", tol=1e-9)
    c.check_eq(elems(y), [mul(v, r) for v in elems(s)], "counts times the ratio", tol=1e-9)


@HARNESSES.add(functions=["xrf_model.get_activated_lines", "xrf_model.get_line_energy"], bounds="lists of two of six families at four incident energies; names with and without line numbers in any capitals")
def activated(c):
    fams = ["Fe_K", "Pt_L", "Pt_M", "Mo_K", "U_M", "Ag_L"]
    E = c.choice("energy", [2.0, 8.0, 12.0, 30.0])
    i, j = c.choice("i", list(range(6))), c.choice("j", list(range(7)))
    lst = [fams[i]] + ([fams[j]] if j < 6 else ["user_peak1"])
    want = ["%s_%s" % (n.split("_")[0], t) for n in lst if not n.startswith("user") for t, _, _ in lines(*n.split("_"), E)]
    c.check(list(xm.get_activated_lines(E, list(lst))) == want, "every activated line of each family, in order")
    if j == 6:
        el, fam = fams[i].split("_")
        k = fam.lower()
        e = XrfElement(el).emission_line
        for name, line in ((fam, k + "a1"), (k, k + "a1"), (fam + "a", k + "a1"), (fam + "a2", k + "a2"), (k.upper() + "A2", k + "a2")) + (((fam + "b", k + "b1"), (fam + "b2", k + "b2")) if k != "m" else ()):
            c.check_eq(xm.get_line_energy("%s_%s" % (el, name)), e[line], "energy of the named line", exact=True)
