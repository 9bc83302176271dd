"""C16 logical image arithmetic and reference subtraction"""
import numpy as np
from skbeam.core import arithmetic, utils

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = []

SPEC = {
    "logical_nand": lambda a, b: not_(and_(a, b)),
    "logical_nor": lambda a, b: not_(or_(a, b)),
    "logical_sub": lambda a, b: and_(a, not_(b)),
    "logical_and": and_,
    "logical_or": or_,
    "logical_xor": lambda a, b: or_(and_(a, not_(b)), and_(not_(a), b)),
}


def same(c, v, w, what):
    v = core.tb(v)
    c.check(or_(and_(v, w), and_(not_(v), not_(w))), what)


def operand(c, name, kind, shape):
    if kind == "int":
        return c.ints(name, shape, -2, 2)
    if kind == "real":
        return c.reals(name, shape, -2, 2)
    return c.bools(name, shape)


@HARNESSES.each({"%s.%s" % (f, k): (f, k) for f in SPEC for k in ("bool", "int", "real")}, functions=["arithmetic.logical_nand", "arithmetic.logical_nor", "arithmetic.logical_sub"], bounds="2x2 images (and one broadcast row) of any booleans, integers or reals; with and without an output array", quick_s=100)
def logical(c, f, kind):
    a, b = operand(c, "a", kind, (2, 2)), operand(c, "b", kind, c.choice("shape", [(2, 2), (2,)]))
    fn = getattr(arithmetic, f)
    snap = snapshot(a, b)
    if c.choice("out", [False, True]):
        buf = c.arr(np.zeros((2, 2), dtype=bool))
        o = fn(a, b, buf)
        c.check(o is buf or np.shares_memory(np.asarray(o), np.asarray(buf)) if not c.symbolic else True, "the output array is used")
        for i in np.ndindex(2, 2):
            same(c, at(buf, *i), SPEC[f](ne(at(a, *i), 0) if kind != "bool" else core.tb(at(a, *i)), ne(at(b, *i[-b.ndim:]), 0) if kind != "bool" else core.tb(at(b, *i[-b.ndim:]))), f + " in the output array")
    else:
        o = fn(a, b)
    c.check(tuple(o.shape) == (2, 2), "shape")
    for i in np.ndindex(2, 2):
        x, y = at(a, *i), at(b, *i[-b.ndim:])
        same(c, at(o, *i), SPEC[f](ne(x, 0) if kind != "bool" else core.tb(x), ne(y, 0) if kind != "bool" else core.tb(y)), f)
    unchanged(c, snap, [a, b], "inputs unchanged")


@HARNESSES.each({"%s.%s" % (f, w): (f, w) for f in ("logical_nand", "logical_nor", "logical_sub") for w in ("first", "second")}, functions=["arithmetic.logical_sub"], bounds="2x2 images of any booleans, the result written over one of the operands")
def in_place(c, f, which):
    a, b = c.bools("a", (2, 2)), c.bools("b", (2, 2))
    A, B = elems(a), elems(b)
    o = getattr(arithmetic, f)(a, b, a if which == "first" else b)
    for x, y, v in zip(A, B, elems(o)):
        same(c, v, SPEC[f](core.tb(x), core.tb(y)), f + " in place")


@HARNESSES.each({"array": ("array",), "list": ("list",)}, functions=["utils.subtract_reference_images"], bounds="4 images of 1x2 pixels, any values, any flags", quick_s=100)
def reference(c, how):
    n = 4
    st = c.reals("I", (n, 1, 2), -8, 8)
    fl = [bool(c.bool("ref%d" % t)) for t in range(n)]
    kind = c.choice("flags", ["bool", "int"])
    flags = c.arr(np.array(fl, dtype=bool if kind == "bool" else int))
    imgs = st if how == "array" else [st[t] for t in range(n)]
    snap = snapshot(st)
    try:
        out = utils.subtract_reference_images(imgs, flags)
    except ValueError:
        c.check(not fl[0], "rejected only when the first image is no reference")
        return
    c.check(fl[0], "a series that does not start with a reference is rejected")
    want = []
    ref = 0
    for t in range(n):
        if fl[t]:
            ref = t
        else:
            want.append((t, ref))
    c.check(len(out) == len(want), "one result per measured image")
    for o, (t, r) in zip(out, want):
        for j in range(2):
            c.check_eq(at(o, 0, j), sub(at(st, t, 0, j), at(st, r, 0, j)), "measured image minus the latest reference before it")
    unchanged(c, snap, [st], "images unchanged")


HARNESSES.each({"array": ("array",), "list": ("list",)}, functions=["utils.subtract_reference_images"], bounds="as reference, of any 8-bit counts", quick_s=100)(as_counts(reference, "I"))
