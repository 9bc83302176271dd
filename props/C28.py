"""C28 element tables: lookup, X-ray lines and line search"""
import os

import numpy as np
import xraylib
from skbeam.core import constants
from skbeam.core.constants import basic as basic_mod
from skbeam.core.constants import BasicElement, XrfElement, emission_line_search
from skbeam.core.constants.xrf import XrayLibWrap, XrayLibWrap_Energy

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["xraylib's values are the installed ones; elements, lines and shells are explored exhaustively as finite choices, energies and tolerances are symbolic"]
FIELDS = ["Z", "sym", "name", "atomic_radius", "covalent_radius", "mass", "bp", "mp", "density", "atomic_volume", "coherent_scattering_length",
          "incoherent_crosssection", "absorption", "debye_temp", "thermal_conductivity"]


def table():
    """the records of the data file shipped with the package"""
    out = {}
    path = os.path.join(os.path.dirname(basic_mod.__file__), "data", "AtomicConstants.dat")
    z = sym = name = None
    for line in open(path):
        w = line.split()
        if w[0] == "#S":
            z, sym = int(w[1]), w[2]
            if z == 1000:
                break
        elif line.startswith("#UNAME"):
            name = w[1]
        elif not line.startswith("#"):
            out[z] = dict(zip(FIELDS, [z, sym, name] + [float(v) for v in w]))
    return out


TABLE = table()


@HARNESSES.add(functions=["constants.basic.BasicElement", "constants.xrf.XrfElement"], bounds="every element of the table by number, by symbol and by name, in four spellings; every field as attribute and item")
def lookup(c):
    z = c.choice("Z", sorted(TABLE))
    d = TABLE[z]
    how = c.choice("how", ["number", "sym", "name"])
    if how == "number":
        key = z
    else:
        t = c.choice("case", ["as", "lower", "upper", "swap"])
        key = d[how]
        key = {"as": key, "lower": key.lower(), "upper": key.upper(), "swap": key.swapcase()}[t]
    cls = c.choice("cls", [BasicElement, XrfElement])
    e = cls(key)
    for f in FIELDS:
        a, b = getattr(e, f), e[f]
        ok = all(type(v) is type(d[f]) and (v == d[f] or v != v and d[f] != d[f]) for v in (a, b))
        c.check(ok, "the record of the element")


@HARNESSES.add(functions=["constants.basic.BasicElement.__eq__", "constants.basic.BasicElement.__lt__"], bounds="any two of 12 elements over the whole table, found by number or by name")
def ordering(c):
    zs = [1, 2, 3, 6, 8, 26, 29, 30, 56, 79, 92, 100]
    a, b = c.choice("a", zs), c.choice("b", zs)
    x = BasicElement(a)
    y = BasicElement(TABLE[b]["name"]) if c.choice("named", [True, False]) else XrfElement(b)
    c.check((x == y) is (a == b) and (x != y) is (a != b), "equal exactly for the same element")
    c.check((x < y, x <= y, x > y, x >= y) == (a < b, a <= b, a > b, a >= b), "ordered by atomic number")


@HARNESSES.add(functions=["constants.basic.BasicElement"], bounds="numbers and names that are no element")
def unknown(c):
    k = c.choice("key", [0, -1, 1001, "Xx", "", "unobtainium", "z n"])
    c.check(raises(c, KeyError, BasicElement, k), "unknown elements are rejected")


LINES = ["ka1", "ka2", "ka3", "kb1", "kb2", "kb3", "kb4", "kb5", "la1", "la2", "lb1", "lb2", "lb3", "lb4", "lb5", "lg1", "lg2", "lg3", "lg4", "ll", "ln", "ma1", "ma2", "mb", "mg"]
SHELLS = "K L1 L2 L3 M1 M2 M3 M4 M5 N1 N2 N3 N4 N5 N6 N7 O1 O2 O3 O4 O5 P1 P2 P3".split()


def line_const(n):
    return getattr(xraylib, {"ln": "LE"}.get(n, n.upper()) + "_LINE")


def shell_const(n):
    return getattr(xraylib, n.upper() + "_SHELL")


def value(f, *a):
    try:
        return f(*a)
    except ValueError:
        return 0


KIND = {"lines": (LINES, line_const, xraylib.LineEnergy), "binding_e": (SHELLS, shell_const, xraylib.EdgeEnergy), "jump": (SHELLS, shell_const, xraylib.JumpFactor), "yield": (SHELLS, shell_const, xraylib.FluorYield)}


@HARNESSES.each({k: k for k in list(KIND) + ["cs", "csb"]}, functions=["constants.xrf.XrayLibWrap", "constants.xrf.XrayLibWrap_Energy", "constants.xrf.XrfElement"], bounds="every element, every line or shell in any spelling; three incident energies for cross sections")
def wrapped(c, kind):
    z = c.choice("Z", list(range(1, 101)))
    e = XrfElement(z)
    if kind in KIND:
        names, const, f = KIND[kind]
        w = {"lines": e.emission_line, "binding_e": e.bind_energy, "jump": e.jump_factor, "yield": e.fluor_yield}[kind]
        direct = XrayLibWrap(z, kind)
        want = lambda n: value(f, z, const(n))
    else:
        E = c.choice("energy", [2.5, 12.0, 35.0])
        names = LINES
        f = xraylib.CS_FluorLine_Kissel if kind == "cs" else xraylib.CSb_FluorLine_Kissel
        w = (e.cs if kind == "cs" else e.csb)(E)
        direct = XrayLibWrap_Energy(z, kind, E)
        want = lambda n: value(f, z, line_const(n), E)
        c.check(w.incident_energy == E and direct.incident_energy == E, "incident energy")
    low = sorted(n.lower() for n in names)
    for q in (w, direct):
        c.check(list(q) == low and len(q) == len(low), "the names in alphabetical order")
        c.check(q.info_type == kind, "kind of information")
        c.check(q.all == [(n, want(n)) for n in low], "all values in order")
        c.check(all(q[n] == want(n) and q[n.upper()] == want(n) and q[n.capitalize()] == want(n) for n in low), "value of each name in any spelling")
        c.check(raises(c, KeyError, lambda: q["zz9"]), "unknown names are rejected")
    if kind in ("cs", "csb"):
        direct.incident_energy = "20"
        c.check(direct.incident_energy == 20.0 and direct["ka1"] == value(f, z, line_const("ka1"), 20.0), "a new incident energy takes effect")
        c.check(w.incident_energy == E, "other objects keep theirs")


NEAR = {"Zn": (30, 12.0), "Au": (79, 12.0), "C": (6, 12.0), "Pb80": (82, 100.0), "Fe5": (26, 5.0), "H": (1, 12.0)}


@HARNESSES.each(NEAR, functions=["constants.xrf.XrfElement.line_near"], bounds="any energy in [0,100] keV and any range in [0,4] keV; stated elements and incident energies", quick_s=200)
def near(c, z, E):
    e = XrfElement(z)
    en = c.real("energy", 0, 100)
    de = c.real("delta", 0, 4) if z in (6, 26, 1) else c.choice("delta", [0.0, 0.25, 1.5])
    out = e.line_near(en, de, E)
    cs = {n: value(xraylib.CS_FluorLine_Kissel, z, line_const(n), E) for n in LINES}
    for n in LINES:
        v = value(xraylib.LineEnergy, z, line_const(n))
        if n in out:
            c.check(cs[n] != 0, "only excited lines")
            c.check(lt(core.absolute(sub(v, en)), de), "only lines within the range")
            c.check(out[n] == v, "energy of the line")
        elif cs[n] != 0:
            c.check(ge(core.absolute(sub(v, en)), de), "every excited line within the range")
    c.check(set(out) <= set(LINES), "known lines only")


@HARNESSES.each({"list": ([30, "au", "Fe"],), "names": (["zinc", "CU", 29],), "none": ([1, 2],), "all": (None,)}, functions=["constants.xrf.emission_line_search"], bounds="any energy in [0,40] keV (all elements: [8,8.25]), ranges 0.05 and 0.25 keV, incident energies 12 and 30 keV", quick_s=240)
def search(c, els):
    en = c.real("energy", 8 if els is None else 0, 8.25 if els is None else 40)
    de = 0.05 if els is None else c.choice("delta", [0.05, 0.25])
    E = 12.0 if els is None else c.choice("incident", [12.0, 30.0])
    out = emission_line_search(en, de, E) if els is None else emission_line_search(en, de, E, list(els))
    zs = sorted({XrfElement(v).Z for v in els}) if els is not None else range(1, 101)
    seen = {}
    for z in zs:
        cs = {n: value(xraylib.CS_FluorLine_Kissel, z, line_const(n), E) for n in LINES}
        for n in LINES:
            v = value(xraylib.LineEnergy, z, line_const(n))
            got = n in out.get(TABLE[z]["sym"], {})
            if cs[n] == 0 or v < 0:
                c.check(not got, "only excited lines")
                continue
            if els is None and abs(v - 8.125) > 0.25:
                c.check(not got, "only lines within the range")
                continue
            inside = lt(core.absolute(sub(v, en)), de)
            c.check(inside if got else not_(inside), "exactly the excited lines within the range")
            if got:
                seen.setdefault(TABLE[z]["sym"], {})[n] = v
    c.check(out == seen, "elements with at least one line, with those lines")
