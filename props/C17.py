"""C17 dotted-path dictionaries"""
import contextlib
import io

import numpy as np
from skbeam.core import utils

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["keys are drawn from a fixed set of paths of depth up to three; the stored values are arbitrary (symbolic)"]
KEYS = ["a", "b", "a.x", "a.y", "a.x.p", "b.x"]


def prefixes(k):
    p = k.split(".")
    return [".".join(p[:i]) for i in range(1, len(p))]


def model_set(m, k, v):
    """None when the path runs through a leaf"""
    if any(p in m for p in prefixes(k)):
        return None
    r = {q: w for q, w in m.items() if q != k and not q.startswith(k + ".")}
    r[k] = v
    return r


def compare(c, d, m, value):
    c.check(sorted(d) == sorted(m), "the paths of exactly the stored leaves are listed, each once")
    c.check(len(d) == len(m), "length counts the leaves")
    for k in m:
        c.check_eq(value(d[k]), m[k], "every path gives the value stored last", exact=True)


@HARNESSES.each({k.replace(".", "_"): (k,) for k in KEYS}, functions=["RCParamDict"], bounds="any sequence of 3 assignments (first path as named) and one deletion over 6 nested paths, any values", quick_s=200)
def rc_params(c, first):
    d, m = utils.RCParamDict(), {}
    for t in range(3):
        k = first if t == 0 else c.choice("k%d" % t, KEYS)
        v = c.real("v%d" % t, -8, 8)
        n = model_set(m, k, v)
        try:
            d[k] = v
            ok = True
        except KeyError:
            ok = False
        c.check(ok == (n is not None), "a path through a stored value is rejected, any other accepted")
        if ok != (n is not None):
            return
        m = n if n is not None else m
        compare(c, d, m, lambda x: x)
    k = c.choice("gone", KEYS)
    if k in m:
        del d[k]
        m = {q: w for q, w in m.items() if q != k}
        compare(c, d, m, lambda x: x)
        c.check(raises(c, KeyError, lambda: d[k]), "a deleted path is gone")
    elif not any(p in m for p in prefixes(k)) and not any(q.startswith(k + ".") for q in m):
        c.check(raises(c, KeyError, lambda: d[k]), "an unknown path is an error")
    r = repr(d).split("\n") if m else []
    for q in m:
        leaf = q.split(".")[-1]
        c.check(any(l.startswith("    " * q.count(".") + leaf + ": ") for l in r), "every leaf is shown at its depth")


@HARNESSES.each({k.replace(".", "_"): (k,) for k in KEYS}, functions=["MD_dict"], bounds="any sequence of 3 assignments (first path as named), a read of any path in between, and one deletion over 6 nested paths; values with and without units", quick_s=200)
def metadata(c, first):
    d, m = utils.MD_dict(), {}
    for t in range(2):
        k = first if t == 0 else c.choice("k%d" % t, KEYS)
        v = c.real("v%d" % t, -8, 8)
        n = model_set(m, k, v)
        try:
            d[k] = v
            ok = True
        except KeyError:
            ok = False
        c.check(ok == (n is not None), "a path through a stored value is rejected, any other accepted")
        if ok != (n is not None):
            return
        m = n if n is not None else m
        g = c.choice("read%d" % t, KEYS)
        try:
            got = d[g]
            if g not in m and not any(q.startswith(g + ".") for q in m):
                c.check(got is None, "an unknown path has no value")
        except KeyError:
            c.check(any(p in m for p in prefixes(g)), "reading fails only through a leaf")
        compare(c, d, m, lambda x: x.value)
        for q in m:
            c.check(d[q].units is None, "a bare value has no units")
    k = c.choice("gone", KEYS)
    if k in m:
        del d[k]
        m = {q: w for q, w in m.items() if q != k}
        compare(c, d, m, lambda x: x.value)


@HARNESSES.add(functions=["MD_dict.__setitem__"], bounds="any values; strings, pairs with and without units, sequences of 0, 1, 3 elements, ready-made entries")
def units(c):
    d = utils.MD_dict()
    v, w = c.real("v", -8, 8), c.real("w", -8, 8)
    pure = [("text", "hello", "text"), ((v, "mm"), v, "mm"), ((v, None), v, None), ((v, w), (v, w), None), ([v, "um"], v, "um"), ([v], [v], None), ((), (), None),
            ((v, w, v), (v, w, v), None), ((v, "a", "b"), (v, "a", "b"), None), (v, v, None), (utils.md_value(v, "kg"), v, "kg"), (None, None, None), ({"q": 1}, {"q": 1}, None)]
    i = c.choice("kind", list(range(len(pure))))
    val, want, u = ("hello", "hello", "text") if i == 0 else pure[i]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        d["n.k"] = val
    c.check(buf.getvalue() == "", "storing a value prints nothing")
    e = d["n.k"]
    c.check(e.units == u if not is_sym(e.units) else False, "units as given")
    if isinstance(want, (tuple, list)):
        c.check(type(e.value) is type(want) and len(e.value) == len(want) and all(x is y for x, y in zip(e.value, want)), "the value as given")
    else:
        c.check(e.value is want or (not is_sym(want) and e.value == want), "the value as given")
    c.check(list(d) == ["n.k"], "one leaf")


@HARNESSES.add(functions=["verbosedict"], bounds="dictionaries of 0, 3, 24, 25 and 40 entries, any values and integer key", quick_s=100)
def verbose(c):
    n = c.choice("n", [0, 3, 24, 25, 40])
    v = c.real("v", -8, 8)
    d = utils.verbosedict(("k%d" % j, v) for j in range(n))
    k = c.choice("key", ["k0", "k23", "k30", "other"])
    has = k != "other" and int(k[1:]) < n
    try:
        x = d[k]
        c.check(has, "only existing keys have values")
        c.check_eq(x, v, "the stored value", exact=True)
    except KeyError as e:
        c.check(not has, "existing keys are found")
        msg = str(e)
        c.check(("'%s'" % k) in msg.replace("\\", ""), "the message names the missing key")
        c.check(("too many" in msg) == (n >= 25), "small dictionaries list their keys, large ones their number")
        if n < 25:
            c.check(all(("k%d" % j) in msg for j in range(n)), "all keys are listed")
        else:
            c.check(str(n) in msg, "the number of keys is given")
