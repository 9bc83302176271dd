"""symx.arr - numpy arrays with symbolic elements.

SArr is an ndarray of python objects that carries the dtype the real array
would have.  Arrays without symbolic elements are handed to numpy itself;
arrays with symbolic elements go through the element functions of symx.core.
"""
import functools
import math

import numpy as np
import z3

from . import core
from .core import S, SB, SC, Unsupported, is_sym

F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)
BOOL = np.dtype(bool)
C128 = np.dtype(np.complex128)
OBJ = np.dtype(object)


def to_dtype(d):
    if d is None:
        return F64
    if isinstance(d, np.dtype):
        return d
    t = getattr(d, "_symx_real_type", None)
    if t is not None:
        d = t
    return np.dtype(d)


def elem_dtype(x):
    if isinstance(x, S):
        return I64 if x.isint else F64
    if isinstance(x, SB):
        return BOOL
    if isinstance(x, SC):
        return C128
    return np.asarray(x).dtype


def narrow_int(t, dt):
    """integers of less than 64 bits wrap around"""
    if dt.kind not in "iu" or dt.itemsize >= 8 or not is_sym(t):
        return t
    w = 8 * dt.itemsize
    lo = 0 if dt.kind == "u" else -(2 ** (w - 1))
    hi = lo + 2 ** w - 1
    e = core.zint(t)
    c = core.cur()
    inside = z3.And(e >= lo, e <= hi)
    if c.entails(inside):
        return t
    return S(z3.If(inside, e, (e - lo) % (2 ** w) + lo))


def cast_elem(x, dt, src=None):
    """cast one element to the dtype"""
    k = dt.kind
    if is_sym(x):
        if k == "f":
            if isinstance(x, SC):
                return x.re
            if isinstance(x, SB):
                return S(core.zreal(x))
            if dt.itemsize < 8:
                return core.round_to_single(x)
            if x.isint:
                return S(core.zreal(x))
            return x
        if k in "iu":
            if isinstance(x, SB):
                return S(core.zint(x))
            if isinstance(x, SC):
                x = x.re
                if not is_sym(x):
                    return cast_elem(x, dt)
            return narrow_int(core.trunc(x), dt)
        if k == "b":
            return core.tb(x)
        if k == "c":
            if isinstance(x, SC):
                return x
            return SC(cast_elem(x, F64), 0.0)
        return x
    if k == "O":
        return x
    if k == "f" and isinstance(x, complex):
        x = x.real
    if k in "iu" and isinstance(x, float) and not math.isfinite(x):
        return -(2 ** 63) if dt.itemsize == 8 else 0
    with np.errstate(all="ignore"):
        r = np.asarray(x).astype(dt)
    return r.item()


def wrap(o, dt):
    a = o.view(SArr)
    a._sd = np.dtype(dt)
    return a


def from_native(a):
    if isinstance(a, SArr):
        return a
    a = np.asarray(a)
    if a.dtype == object:
        return infer(a)
    if a.dtype.kind not in "biufc":
        return a
    return wrap(a.astype(object), a.dtype)


def infer(o):
    """object ndarray -> SArr with the dtype numpy would infer"""
    o = o.view(np.ndarray)
    dts = []
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        x = core.norm_num(o[i])
        if x is NotImplemented:
            return o
        out[i] = x
        dts.append(elem_dtype(x))
    dt = functools.reduce(np.promote_types, set(dts)) if dts else F64
    for i in np.ndindex(*o.shape):
        out[i] = cast_elem(out[i], dt)
    return wrap(out, dt)


def scalar_arr(x):
    o = np.empty((), dtype=object)
    x = core.norm_num(x)
    o[()] = x
    return wrap(o, elem_dtype(x))


def as_sarr(x, dtype=None, copy=False):
    """np.asarray for anything that may contain symbols"""
    if isinstance(x, LazySel):
        x = x.force()
    if isinstance(x, SArr):
        r = x
    elif isinstance(x, np.ndarray):
        r = from_native(x)
    elif is_sym(x):
        r = scalar_arr(x)
    elif isinstance(x, (list, tuple, range)) or hasattr(x, "__len__") and not isinstance(x, (str, bytes, dict)):
        x = list(x)
        if not has_sym(x):
            x2 = [denat(v) for v in x]
            r = from_native(np.array(x2))
            if not isinstance(r, SArr):
                return r
        else:
            subs = [as_sarr(v) for v in x]
            shp = subs[0].shape
            if any(s.shape != shp for s in subs):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            o = np.empty((len(subs),) + shp, dtype=object)
            for i, s in enumerate(subs):
                o[i] = s.view(np.ndarray) if s.ndim else s.view(np.ndarray)[()]
            dts = [s._sd for s in subs]
            dt = functools.reduce(np.promote_types, dts) if dts else F64
            r = wrap(o, dt)
            r = r.astype(dt)
    else:
        a = np.asarray(x)
        if a.dtype.kind not in "biufc":
            return a
        r = from_native(a)
    if dtype is not None:
        dt = to_dtype(dtype)
        if dt != r._sd:
            return r.astype(dt)
    if copy and r is x:
        r = r.copy()
    return r


def denat(x):
    """nested SArr without symbols -> native"""
    if isinstance(x, SArr):
        return x.native()
    if isinstance(x, (list, tuple)):
        return type(x)(denat(v) for v in x) if not hasattr(x, "_fields") else type(x)(*[denat(v) for v in x])
    if isinstance(x, dict):
        return {k: denat(v) for k, v in x.items()}
    t = getattr(x, "_symx_real_type", None)
    if t is not None and isinstance(x, type):
        return t
    return x


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SArr):
        return x.has_sym()
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def rewrap(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray) and type(r) is np.ndarray:
        return from_native(r)
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        return tuple(rewrap(v) for v in r)
    if isinstance(r, tuple):
        return type(r)(*[rewrap(v) for v in r])
    if isinstance(r, list):
        return [rewrap(v) for v in r]
    return r


def unwrap0(r):
    """0-d results become scalars"""
    if isinstance(r, SArr) and r.ndim == 0:
        return r[()]
    return r


# ---------------------------------------------------------- element functions
UN = {
    "negative": core.neg,
    "positive": lambda a: a,
    "absolute": core.absolute,
    "fabs": core.absolute,
    "sqrt": core.sqrt,
    "square": lambda a: core.mul(a, a),
    "exp": core.exp,
    "log": core.log,
    "log10": core.log10,
    "log2": core.log2,
    "sin": core.sin,
    "cos": core.cos,
    "tan": core.tan,
    "arcsin": core.arcsin,
    "arccos": core.arccos,
    "arctan": core.arctan,
    "sinh": core.generic_uf("sinh"),
    "cosh": core.generic_uf("cosh"),
    "tanh": core.generic_uf("tanh"),
    "floor": core.floor,
    "ceil": core.ceil,
    "trunc": core.trunc_f,
    "rint": core.rint,
    "sign": core.sign,
    "logical_not": core.not_,
    "invert": core.not_,
    "isnan": lambda a: False if is_sym(a) and not isinstance(a, SC) else (
        _cn(a, math.isnan)),
    "isinf": lambda a: _cn(a, math.isinf),
    "isfinite": lambda a: core.not_(core.or_(_cn(a, math.isnan), _cn(a, math.isinf))),
    "conjugate": lambda a: a.conjugate() if is_sym(a) or isinstance(a, complex) else a,
    "reciprocal": lambda a: core.div(1.0, a),
    "deg2rad": lambda a: core.mul(a, math.pi / 180),
    "radians": lambda a: core.mul(a, math.pi / 180),
    "rad2deg": lambda a: core.mul(a, 180 / math.pi),
    "degrees": lambda a: core.mul(a, 180 / math.pi),
    "spacing": core.spacing,
}


def _cn(a, f):
    if isinstance(a, SC):
        return core.or_(_cn(a.re, f), _cn(a.im, f))
    if is_sym(a):
        return False
    if isinstance(a, complex):
        return f(a.real) or f(a.imag)
    return f(a)


BIN = {
    "add": core.add,
    "subtract": core.sub,
    "multiply": core.mul,
    "divide": core.div,
    "true_divide": core.div,
    "floor_divide": core.floordiv,
    "remainder": core.mod,
    "mod": core.mod,
    "fmod": core.fmod,
    "power": core.power,
    "float_power": core.power,
    "maximum": core.maximum,
    "minimum": core.minimum,
    "fmax": core.fmax,
    "fmin": core.fmin,
    "less": core.lt,
    "less_equal": core.le,
    "greater": core.gt,
    "greater_equal": core.ge,
    "equal": core.eq,
    "not_equal": core.ne,
    "logical_and": core.and_,
    "logical_or": core.or_,
    "logical_xor": core.xor_,
    "bitwise_and": None,
    "bitwise_or": None,
    "bitwise_xor": None,
    "arctan2": core.arctan2,
    "hypot": lambda a, b: core.sqrt(core.add(core.mul(a, a), core.mul(b, b))),
    "heaviside": lambda a, b: core.ite(core.lt(a, 0), 0.0, core.ite(core.eq(a, 0), b, 1.0)),
    "copysign": lambda a, b: core.ite(core.lt(b, 0), core.neg(core.absolute(a)), core.absolute(a)),
}


def _bit(name):
    f = {"bitwise_and": core.and_, "bitwise_or": core.or_, "bitwise_xor": core.xor_}[name]

    def g(a, b):
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return f(a, b)
        if not is_sym(a) and not is_sym(b):
            return {"bitwise_and": a & b, "bitwise_or": a | b, "bitwise_xor": a ^ b}[name]
        # small symbolic integers: case split
        a = int(a) if is_sym(a) else a
        b = int(b) if is_sym(b) else b
        return g(a, b)

    return g


for _n in ("bitwise_and", "bitwise_or", "bitwise_xor"):
    BIN[_n] = _bit(_n)

REDUCE_ID = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_or": False, "bitwise_and": True}


def elementwise2(fn, a, b, dt=None):
    a, b = as_sarr(a), as_sarr(b)
    x, y = np.broadcast_arrays(a.view(np.ndarray), b.view(np.ndarray))
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        o[i] = fn(x[i], y[i])
    if dt is None:
        r = infer(o)
    else:
        r = wrap(o, dt)
    return unwrap0(r)


def _probe_arg(x):
    if isinstance(x, SArr):
        return np.ones((0,), dtype=x._sd) if x.ndim else x._sd.type(1)
    if isinstance(x, S):
        return 1 if x.isint else 1.0
    if isinstance(x, SB):
        return True
    if isinstance(x, SC):
        return 1j
    if isinstance(x, np.ndarray):
        return np.ones((0,), dtype=x.dtype) if x.ndim else x
    return x


def ufunc_result_dtypes(ufunc, inputs, kw):
    args = [_probe_arg(x) for x in inputs]
    if not any(isinstance(a, np.ndarray) for a in args):
        args = [np.ones((0,), dtype=np.asarray(a).dtype) if i == 0 else a for i, a in enumerate(args)]
    with np.errstate(all="ignore"):
        r = ufunc(*args, **kw)
    return tuple(x.dtype for x in r) if isinstance(r, tuple) else (r.dtype,)


def store_out(out, r):
    """write result r into the out array with numpy's same_kind rule"""
    if isinstance(out, SArr):
        rd = r._sd if isinstance(r, SArr) else np.asarray(denat(r)).dtype
        if not np.can_cast(rd, out._sd, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(np.add, "same_kind", rd, out._sd, 0)
        rr = as_sarr(r).astype(out._sd).view(np.ndarray)
        np.copyto(out.view(np.ndarray), rr)
        return out
    if has_sym(r):
        if out.dtype == object:
            np.copyto(out, as_sarr(r).view(np.ndarray))
            return out
        raise Unsupported("symbolic result stored in a native array")
    np.copyto(out, denat(r), casting="same_kind")
    return out


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    if method == "__call__" and len(inputs) > ufunc.nin:
        out, inputs = tuple(inputs[ufunc.nin:]), tuple(inputs[:ufunc.nin])
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    if out is not None and all(o is None for o in out):
        out = None
    where = kwargs.get("where", True)
    if "dtype" in kwargs and kwargs["dtype"] is not None:
        kwargs["dtype"] = to_dtype(kwargs["dtype"])
    sym = any(has_sym(x) for x in inputs) or has_sym(where)
    if method == "at":
        return _ufunc_at(ufunc, *inputs)
    if not sym and method in ("__call__", "reduce", "accumulate", "outer", "reduceat"):
        nat = [denat(x) for x in inputs]
        kw = {k: denat(v) for k, v in kwargs.items()}
        if out is not None and where is not True:
            prev = tuple(denat(o) if not has_sym(o) else None for o in out)
            if any(p is None for p in prev):
                sym = True
            else:
                prev = tuple(np.array(p) for p in prev)
                r = getattr(ufunc, method)(*nat, out=prev if len(prev) > 1 else prev[0], **kw)
                return store_out(out[0], r)
        if not sym:
            r = getattr(ufunc, method)(*nat, **kw)
            if out is not None:
                if isinstance(r, tuple):
                    return tuple(store_out(o, x) if o is not None else rewrap(x) for o, x in zip(out, r))
                return store_out(out[0], r)
            return rewrap(r)
    name = ufunc.__name__
    if method == "__call__":
        r = _ufunc_call(ufunc, name, inputs, kwargs, out)
        if isinstance(r, tuple) or out is None:
            return r
        if where is not True:
            return r
        return store_out(out[0], r)
    if method == "reduce":
        r = _ufunc_reduce(name, *inputs, **kwargs)
        if out is not None:
            return store_out(out[0], r)
        return r
    if method == "accumulate":
        a = as_sarr(inputs[0])
        axis = kwargs.get("axis", inputs[1] if len(inputs) > 1 else 0)
        return _accumulate(BIN[name], a, axis)
    if method == "outer":
        a, b = as_sarr(inputs[0]), as_sarr(inputs[1])
        aa = a.reshape(a.shape + (1,) * b.ndim)
        return ufunc_dispatch(ufunc, "__call__", (aa, b), kwargs)
    raise Unsupported("ufunc %s.%s" % (name, method))


def _ufunc_call(ufunc, name, inputs, kwargs, out):
    where = kwargs.pop("where", True)
    kw = {k: v for k, v in kwargs.items() if k in ("dtype", "casting")}
    if name == "matmul":
        return matmul(*inputs)
    if name in ("divmod",):
        return (
            ufunc_dispatch(np.floor_divide, "__call__", inputs, {}),
            ufunc_dispatch(np.remainder, "__call__", inputs, {}),
        )
    if name == "modf":
        i = ufunc_dispatch(np.trunc, "__call__", inputs, {})
        return (ufunc_dispatch(np.subtract, "__call__", (inputs[0], i), {}), i)
    if len(inputs) == 1:
        fn = UN.get(name)
        if fn is None:
            if ufunc.nout != 1:
                raise Unsupported("ufunc " + name)
            fn = core.generic_uf(name)
    elif len(inputs) == 2:
        fn = BIN.get(name)
        if fn is None:
            raise Unsupported("ufunc " + name)
    elif name == "clip":
        a, lo, hi = inputs
        r = a
        if lo is not None:
            r = ufunc_dispatch(np.maximum, "__call__", (r, lo), {})
        if hi is not None:
            r = ufunc_dispatch(np.minimum, "__call__", (r, hi), {})
        return r
    else:
        raise Unsupported("ufunc " + name)
    ins = [as_sarr(x) for x in inputs]
    for x in ins:
        if not isinstance(x, SArr):
            raise Unsupported("ufunc operand")
    try:
        dt = ufunc_result_dtypes(ufunc, inputs, kw)[0]
    except (ValueError, TypeError):
        if any(is_sym(x) for x in inputs):
            dt = None
        else:
            raise
    bs = np.broadcast_arrays(*[x.view(np.ndarray) for x in ins])
    shp = bs[0].shape
    o = np.empty(shp, dtype=object)
    if where is not True:
        w = np.broadcast_to(as_sarr(where).view(np.ndarray), np.broadcast_shapes(shp, as_sarr(where).shape))
        if out is None or out[0] is None:
            prev = np.zeros(shp, dtype=object)
        else:
            prev = as_sarr(out[0]).view(np.ndarray)
        for i in np.ndindex(*shp):
            c = core.tb(w[i])
            if c is False:
                o[i] = prev[i]
            elif c is True:
                o[i] = fn(*[b[i] for b in bs])
            elif bool(c):  # branch: the function may be partial outside `where`
                o[i] = fn(*[b[i] for b in bs])
            else:
                o[i] = prev[i]
        r = wrap(o, dt)
        if out is not None and out[0] is not None:
            return store_out(out[0], r)
        return r
    for i in np.ndindex(*shp):
        o[i] = fn(*[b[i] for b in bs])
    if dt is None:
        return unwrap0(infer(o))
    if dt.kind in "fc":
        for i in np.ndindex(*shp):
            v = o[i]
            if (isinstance(v, (S, SB)) and core.is_intlike(v)) or (not is_sym(v) and not isinstance(v, float)):
                o[i] = cast_elem(v, dt)
    elif dt.kind in "iu":
        for i in np.ndindex(*shp):
            v = o[i]
            if isinstance(v, float) or isinstance(v, S) and not v.isint:
                o[i] = cast_elem(v, dt)
            elif dt.itemsize < 8 and is_sym(v):
                o[i] = narrow_int(v, dt)
    return unwrap0(wrap(o, dt))


def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(int(a) % nd if nd else 0 for a in axis))
    axis = int(axis)
    if axis < -nd or axis >= nd:
        raise np.exceptions.AxisError(axis, nd)
    return (axis % nd,)


def reduce_axes(a, axis, f, keepdims=False):
    """f(list of elements) -> element"""
    a = as_sarr(a)
    v = a.view(np.ndarray)
    nd = v.ndim
    ax = norm_axis(axis, nd)
    rest = [i for i in range(nd) if i not in ax]
    t = v.transpose(rest + list(ax))
    shp = tuple(v.shape[i] for i in rest)
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        o[i] = f(list(t[i].flat) if ax else [t[i]])
    if keepdims:
        o = o.reshape([1 if i in ax else v.shape[i] for i in range(nd)])
    return o


def _fold(fn, lst, init=None):
    if init is None:
        if not lst:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = lst[0]
        lst = lst[1:]
    else:
        r = init
    for x in lst:
        r = fn(r, x)
    return r


def sum_list(lst, dt):
    """n-ary sum: one flat term instead of a left-deep chain"""
    if any(core._bad(x) for x in lst) or dt.kind == "c" or len(lst) < 3:
        return _fold(core.add, lst, 0 if dt.kind in "iub" else 0.0)
    const = 0
    es = []
    isint = dt.kind in "iub" and all(core.is_intlike(x) for x in lst)
    for x in lst:
        if is_sym(x):
            es.append(core.zint(x) if isint else core.zreal(x))
        else:
            const = const + x
    if not es:
        return const
    if const != 0:
        es.append(core.zint(const) if isint else core.zreal(const))
    return S(z3.Sum(es)) if len(es) > 1 else S(es[0])


def _ufunc_reduce(name, a, axis=0, dtype=None, keepdims=False, initial=np._NoValue, where=True, **kw):
    a = as_sarr(a)
    if where is not True:
        w = as_sarr(where)
        ident = REDUCE_ID[name]
        a = where_fn(np.broadcast_to(w, a.shape, subok=True), a, ident)
    sd = a._sd
    if name in ("add", "multiply") and sd.kind in "biu" and dtype is None:
        sd = np.result_type(sd, np.int64) if sd.kind != "u" else np.dtype(np.uint64)
    if dtype is not None:
        sd = to_dtype(dtype)
        a = a.astype(sd)
    if name in ("logical_and", "logical_or"):
        sd = BOOL
    if name == "add":
        f = lambda l: sum_list(l, sd) if initial is np._NoValue else core.add(sum_list(l, sd), initial)
    else:
        if name in ("logical_and", "bitwise_and") and sd == BOOL:
            f = lambda l: core.and_(*l)
        elif name in ("logical_or", "bitwise_or") and sd == BOOL:
            f = lambda l: core.or_(*l)
        else:
            init = None if initial is np._NoValue else initial
            if init is None and name in REDUCE_ID:
                init = REDUCE_ID[name]
            fn = BIN[name]
            f = lambda l: _fold(fn, l, init)
    o = reduce_axes(a, axis, f, keepdims)
    r = wrap(o, sd)
    return unwrap0(r)


def _accumulate(fn, a, axis=0):
    sd = a._sd
    if sd.kind == "b" and fn is core.add:
        sd = I64
    v = np.moveaxis(a.view(np.ndarray), axis, 0)
    o = np.empty(v.shape, dtype=object)
    for i in range(v.shape[0]):
        if i == 0:
            o[0] = v[0]
        else:
            if v.ndim == 1:
                o[i] = fn(o[i - 1], v[i])
            else:
                for j in np.ndindex(*v.shape[1:]):
                    o[(i,) + j] = fn(o[(i - 1,) + j], v[(i,) + j])
    return wrap(np.moveaxis(o, 0, axis), sd)


def _ufunc_at(ufunc, a, idx, b=None):
    fn = BIN[ufunc.__name__] if b is not None else UN[ufunc.__name__]
    a_ = a
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = [as_sarr(i) for i in idx]
    idx = np.broadcast_arrays(*[i.view(np.ndarray) for i in idx])
    if b is not None:
        bb = np.broadcast_to(as_sarr(b).view(np.ndarray), idx[0].shape)
    for k in np.ndindex(*idx[0].shape):
        key = tuple(i[k] for i in idx)
        key = key if len(key) > 1 else key[0]
        cur = a_[key]
        a_[key] = fn(core.norm_num(cur), bb[k]) if b is not None else fn(cur)


def matmul(a, b):
    a, b = as_sarr(a), as_sarr(b)
    return np_dot(a, b)


def np_dot(a, b):
    a, b = as_sarr(a), as_sarr(b)
    dt = np.result_type(a._sd, b._sd)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes not aligned")
        return sum_list([core.mul(x, y) for x, y in zip(a.view(np.ndarray), b.view(np.ndarray))], dt)
    A = a.view(np.ndarray)
    B = b.view(np.ndarray)
    sa = A.shape
    if B.ndim == 1:
        if sa[-1] != B.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (sa, B.shape))
        o = np.empty(sa[:-1], dtype=object)
        for i in np.ndindex(*sa[:-1]):
            o[i] = sum_list([core.mul(x, y) for x, y in zip(A[i], B)], dt)
        return wrap(o, dt)
    if sa[-1] != B.shape[-2]:
        raise ValueError("shapes %s and %s not aligned" % (sa, B.shape))
    o = np.empty(sa[:-1] + B.shape[:-2] + B.shape[-1:], dtype=object)
    for i in np.ndindex(*sa[:-1]):
        for j in np.ndindex(*B.shape[:-2]):
            for k in range(B.shape[-1]):
                o[i + j + (k,)] = sum_list([core.mul(x, y) for x, y in zip(A[i], B[j][:, k])], dt)
    return wrap(o, dt)


# ------------------------------------------------------------------ the class
def _key_parts(key):
    return key if isinstance(key, tuple) else (key,)


class SArr(np.ndarray):
    _sd = F64

    def __new__(cls, *a, **k):
        raise TypeError("use wrap()")

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._sd = getattr(obj, "_sd", F64)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a

    @property
    def dtype(self):
        return self._sd

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    @property
    def itemsize(self):
        return self._sd.itemsize

    @property
    def nbytes(self):
        return self._sd.itemsize * self.size

    def has_sym(self):
        return any(is_sym(x) for x in self.view(np.ndarray).flat)

    def native(self):
        o = self.view(np.ndarray)
        out = np.empty(o.shape, dtype=self._sd)
        for i in np.ndindex(*o.shape):
            out[i] = o[i]
        return out

    def force(self):
        """concrete copy; symbolic elements are case split / pinned"""
        o = self.view(np.ndarray)
        out = np.empty(o.shape, dtype=self._sd)
        for i in np.ndindex(*o.shape):
            v = o[i]
            if isinstance(v, SB):
                v = bool(v)
            elif isinstance(v, S):
                v = int(v) if v.isint and self._sd.kind in "iub" else float(v)
            elif isinstance(v, SC):
                v = complex(v)
            out[i] = v
        return out

    def __array__(self, dtype=None, copy=None):
        if not self.has_sym():
            n = self.native()
            return n if dtype is None else n.astype(dtype)
        return np.array(self.view(np.ndarray))

    def view(self, *a, **k):
        if a and a[0] is np.ndarray or k.get("type") is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if a and a[0] is SArr or not a and not k:
            return np.ndarray.view(self, SArr)
        if not self.has_sym():
            return from_native(self.native().view(*a, **k))
        dt = to_dtype(a[0] if a else k.get("dtype"))
        if dt == self._sd:
            return np.ndarray.view(self, SArr)
        raise Unsupported("view")

    # -- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    # -- indexing
    def _conv_key(self, key):
        """returns (native key, symbolic?)"""
        out = []
        sym = False
        for k in _key_parts(key):
            if isinstance(k, SArr):
                if k.has_sym():
                    sym = True
                    out.append(k)
                else:
                    out.append(k.native())
            elif isinstance(k, list):
                a = as_sarr(k)
                if isinstance(a, SArr) and a.has_sym():
                    sym = True
                    out.append(a)
                else:
                    out.append(denat(k))
            elif is_sym(k):
                sym = True
                out.append(k)
            elif isinstance(k, slice):
                out.append(slice(_ix(k.start), _ix(k.stop), _ix(k.step)))
            else:
                out.append(k)
        return (tuple(out) if isinstance(key, tuple) else out[0]), sym

    def __getitem__(self, key):
        key, sym = self._conv_key(key)
        if sym:
            r = self._sym_get(key)
            if r is not NotImplemented:
                return r
            key = force_key(key)
        r = np.ndarray.__getitem__(self.view(np.ndarray), key)
        if isinstance(r, np.ndarray):
            return wrap(r, self._sd)
        return self._scalar(r)

    def _scalar(self, v):
        if is_sym(v):
            return v
        if self._sd.kind in "biufc":
            with np.errstate(all="ignore"):
                try:
                    return self._sd.type(v)
                except (OverflowError, TypeError):
                    return v
        return v

    def _sym_get(self, key):
        # a[symbolic int] / a[symbolic int array] on the first axis: if-then-else chain
        k = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if isinstance(k, SArr) and k._sd == BOOL and k.shape == self.shape and getattr(core.cur(), "lazy_masks", False):
            return LazySel(self.copy(), k.copy())
        if isinstance(k, (S, SArr)) and not isinstance(k, tuple) and self.ndim == 1:
            if isinstance(k, SArr) and k._sd.kind not in "iu":
                return NotImplemented
            if isinstance(k, S) and not k.isint:
                return NotImplemented
            v = self.view(np.ndarray)
            n = len(v)
            def get(i):
                if not is_sym(i):
                    return v[i]
                ok = core.and_(core.ge(i, -n), core.lt(i, n))
                if not bool(ok):
                    raise IndexError("index out of bounds for axis 0 with size %d" % n)
                i = core.ite(core.lt(i, 0), core.add(i, n), i)
                r = v[n - 1]
                for j in range(n - 2, -1, -1):
                    r = core.ite(core.eq(i, j), v[j], r)
                return r
            if isinstance(k, S):
                return self._scalar(get(k))
            kv = k.view(np.ndarray)
            o = np.empty(kv.shape, dtype=object)
            for i in np.ndindex(*kv.shape):
                o[i] = get(kv[i])
            return wrap(o, self._sd)
        return NotImplemented

    def __setitem__(self, key, value):
        key, sym = self._conv_key(key)
        dt = self._sd
        base = self.view(np.ndarray)
        if sym:
            # a[mask] = scalar (or same-shape broadcast): merge
            if isinstance(key, SArr) and key._sd == BOOL and key.shape == self.shape[: key.ndim]:
                if isinstance(value, LazySel) and key.shape == self.shape:
                    same = value.mask.shape == key.shape and all(x is y or (not is_sym(x) and not is_sym(y) and x == y) or (is_sym(x) and is_sym(y) and x.e.eq(y.e)) for x, y in zip(value.mask.view(np.ndarray).flat, key.view(np.ndarray).flat))
                    if same:
                        kv, bv = key.view(np.ndarray), value.base.astype(dt).view(np.ndarray)
                        for i in np.ndindex(*kv.shape):
                            base[i] = core.ite(kv[i], bv[i], base[i]) if is_sym(kv[i]) else (bv[i] if kv[i] else base[i])
                        return
                    value = value.force()
                val = as_sarr(value)
                if val.ndim == 0 and key.ndim == self.ndim:
                    x = cast_elem(core.norm_num(val.view(np.ndarray)[()]), dt)
                    kv = key.view(np.ndarray)
                    for i in np.ndindex(*kv.shape):
                        if kv[i] is False:
                            continue
                        base[i] = core.ite(kv[i], x, base[i])
                    return
            if isinstance(key, S) and self.ndim == 1 and key.isint:
                n = len(base)
                if not bool(core.and_(core.ge(key, -n), core.lt(key, n))):
                    raise IndexError("index out of bounds for axis 0 with size %d" % n)
                kk = core.ite(core.lt(key, 0), core.add(key, n), key)
                x = cast_elem(core.norm_num(value), dt)
                for j in range(n):
                    base[j] = core.ite(core.eq(kk, j), x, base[j])
                return
            key = force_key(key)
        if isinstance(value, LazySel):
            value = value.force()
        if isinstance(value, np.ndarray) or isinstance(value, (list, tuple)):
            val = as_sarr(value)
            if not isinstance(val, SArr):
                base[key] = val
                return
            val = val.astype(dt).view(np.ndarray)
            if val.ndim == 0:
                val = val[()]
        else:
            v = core.norm_num(value)
            if v is NotImplemented:
                val = cast_elem(value, dt)
            else:
                val = cast_elem(v, dt)
        np.ndarray.__setitem__(base, key, val)

    # -- methods
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = to_dtype(dtype)
        v = self.view(np.ndarray)
        if dt.kind not in "biufcO":
            return self.native().astype(dt)
        if not np.can_cast(self._sd, dt, casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule %r" % (self._sd, dt, casting))
        if not copy and dt == self._sd:
            return self
        o = np.empty(v.shape, dtype=object)
        same = dt == self._sd
        for i in np.ndindex(*v.shape):
            o[i] = v[i] if same else cast_elem(v[i], dt)
        return wrap(o, dt)

    def copy(self, order="C"):
        return wrap(np.array(self.view(np.ndarray)), self._sd)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        v = self.view(np.ndarray).item(*a)
        return v

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        kw = {}
        if initial is not np._NoValue:
            kw["initial"] = initial
        if where is not True:
            kw["where"] = where
        return ufunc_dispatch(np.add, "reduce", (self,), dict(axis=axis, dtype=dtype, keepdims=keepdims, out=(out,), **kw))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return ufunc_dispatch(np.multiply, "reduce", (self,), dict(axis=axis, dtype=dtype, keepdims=keepdims, out=(out,)))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        if not self.has_sym():
            return rewrap(self.native().mean(axis=axis, keepdims=keepdims))
        n = 1
        for a in norm_axis(axis, self.ndim):
            n *= self.shape[a]
        return self.sum(axis=axis, keepdims=keepdims) / float(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        if not self.has_sym():
            return rewrap(self.native().var(axis=axis, ddof=ddof, keepdims=keepdims))
        n = 1
        for a in norm_axis(axis, self.ndim):
            n *= self.shape[a]
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        return (d * d).sum(axis=axis, keepdims=keepdims) / float(n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        if not self.has_sym():
            return rewrap(self.native().std(axis=axis, ddof=ddof, keepdims=keepdims))
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        return ufunc_dispatch(np.maximum, "reduce", (self,), dict(axis=axis, keepdims=keepdims, out=(out,), **({} if initial is np._NoValue else {"initial": initial})))

    def min(self, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        return ufunc_dispatch(np.minimum, "reduce", (self,), dict(axis=axis, keepdims=keepdims, out=(out,), **({} if initial is np._NoValue else {"initial": initial})))

    def any(self, axis=None, out=None, keepdims=False):
        return ufunc_dispatch(np.logical_or, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False):
        return ufunc_dispatch(np.logical_and, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        return ufunc_dispatch(np.add, "accumulate", (a,), dict(axis=0 if axis is None else axis))

    def dot(self, b):
        return function_dispatch(np.dot, (self, b), {})

    def __matmul__(self, b):
        return function_dispatch(np.dot, (self, b), {})

    def nonzero(self):
        o = np.empty(self.shape, dtype=bool)
        v = self.view(np.ndarray)
        for i in np.ndindex(*self.shape):
            o[i] = bool(v[i])
        return tuple(from_native(x) for x in np.nonzero(o))

    def argmax(self, axis=None, out=None, **k):
        return arg_ext(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return arg_ext(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def clip(self, min=None, max=None, out=None):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        if out is not None:
            return store_out(out, r)
        return r

    def round(self, decimals=0, out=None):
        if not self.has_sym():
            return rewrap(self.native().round(decimals))
        decimals = int(decimals)
        if self._sd.kind != "f":
            if decimals < 0:
                raise Unsupported("round integers to negative decimals")
            return self.copy()
        if decimals:
            s = 10.0 ** abs(decimals)
            return np.rint(self * s) / s if decimals > 0 else np.rint(self / s) * s
        return np.rint(self)

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side)

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    @property
    def real(self):
        if self._sd.kind != "c":
            return self
        return self._part(0)

    @real.setter
    def real(self, v):
        raise Unsupported("real setter")

    @property
    def imag(self):
        if self._sd.kind != "c":
            return from_native(np.zeros(self.shape))
        return self._part(1)

    @imag.setter
    def imag(self, v):
        raise Unsupported("imag setter")

    def _part(self, k):
        v = self.view(np.ndarray)
        o = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            o[i] = core.re_im(v[i])[k]
        return wrap(o, F64)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(self.view(np.ndarray).flat[0])

    def __index__(self):
        if self.ndim or self._sd.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self)

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.view(np.ndarray).flat[0])

    def __contains__(self, x):
        return bool((self == x).any())

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    @property
    def flat(self):
        return _Flat(self)

    def __repr__(self):
        return "SArr(%s, %s)" % (self.view(np.ndarray).tolist(), self._sd)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def take(self, idx, axis=None, out=None, mode="raise"):
        if axis is None:
            return self.ravel()[idx]
        return self[(slice(None),) * (axis % self.ndim) + (idx,)]

    def put(self, idx, v, mode="raise"):
        f = self.flat
        f[idx] = v

    def repeat(self, n, axis=None):
        n = denat(n)
        return wrap(self.view(np.ndarray).repeat(n, axis=axis), self._sd)

    def tobytes(self, *a, **k):
        return self.force().tobytes(*a, **k)

    def trace(self, *a, **k):
        return sum_list(list(self.view(np.ndarray).diagonal()), self._sd)

    def __reduce__(self):
        raise Unsupported("pickle")


class LazySel(np.lib.mixins.NDArrayOperatorsMixin):
    """a[mask] with an undecided mask, decided only when used for anything but b[mask] = a[mask] (opt-in)"""

    def __init__(self, base, mask):
        self.base, self.mask, self._f = base, mask, None

    def force(self):
        if self._f is None:
            self._f = self.base[force_key(self.mask)]
        return self._f

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        inputs = [x.force() if isinstance(x, LazySel) else x for x in inputs]
        return getattr(ufunc, method)(*inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        f = lambda x: x.force() if isinstance(x, LazySel) else ([f(y) for y in x] if isinstance(x, list) else (tuple(f(y) for y in x) if isinstance(x, tuple) else x))
        return func(*f(list(args)), **{k: f(v) for k, v in kwargs.items()})

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.force())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __getitem__(self, k):
        return self.force()[k]

    def __setitem__(self, k, v):
        self.force()[k] = v

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __bool__(self):
        return bool(self.force())


class _Flat:
    def __init__(self, a):
        self.a = a

    def _idx(self):
        return np.arange(self.a.size).reshape(self.a.shape)

    def __len__(self):
        return self.a.size

    def __iter__(self):
        v = self.a.view(np.ndarray)
        for i in np.ndindex(*v.shape):
            yield self.a._scalar(v[i])

    def __getitem__(self, k):
        return self.a.reshape(-1)[k] if isinstance(k, (slice, int)) else self.a.ravel()[k]

    def __setitem__(self, k, v):
        a = self.a
        if a.flags["C_CONTIGUOUS"]:
            a.reshape(-1)[k] = v
        else:
            t = a.copy()
            t.reshape(-1)[k] = v
            a[...] = t

    def __array__(self, dtype=None, copy=None):
        return self.a.ravel().__array__(dtype)


def _ix(x):
    if x is None or isinstance(x, (int, np.integer)):
        return x
    if is_sym(x):
        return x.__index__()
    return x


def force_key(key):
    def f(k):
        if isinstance(k, SArr):
            if k.has_sym():
                return k.force()
            return k.native()
        if isinstance(k, SB):
            return bool(k)
        if isinstance(k, S):
            return k.__index__()
        return k

    return tuple(f(k) for k in key) if isinstance(key, tuple) else f(key)


# --------------------------------------------------------- numpy functions
HANDLED = {}
ALWAYS = {}


def implements(*fns):
    def deco(f):
        for g in fns:
            HANDLED[g] = f
        return f

    return deco


def function_dispatch(func, args, kwargs):
    if "dtype" in kwargs and kwargs["dtype"] is not None:
        kwargs = dict(kwargs, dtype=to_dtype(kwargs["dtype"]))
    if func in ALWAYS:
        return ALWAYS[func](*args, **kwargs)
    if not has_sym(args) and not has_sym(kwargs):
        out = kwargs.get("out")
        if isinstance(out, SArr):
            kw = {k: denat(v) for k, v in kwargs.items() if k != "out"}
            return store_out(out, func(*[denat(a) for a in args], **kw))
        return rewrap(func(*denat(list(args)), **denat(kwargs)))
    if func in HANDLED:
        return HANDLED[func](*args, **kwargs)
    impl = getattr(func, "_implementation", None)
    if impl is None:
        raise Unsupported("numpy function " + getattr(func, "__name__", str(func)))
    r = impl(*args, **kwargs)
    return rewrap(r)


def where_fn(c, *xy):
    if not xy:
        return as_sarr(c).nonzero()
    x, y = xy
    c, xa, ya = as_sarr(c), as_sarr(x), as_sarr(y)
    # python scalars are weakly typed
    dt = np.result_type(*[_probe_arg(v) if not isinstance(v, (list, tuple)) else as_sarr(v)._sd for v in (x, y)])
    cb, xb, yb = np.broadcast_arrays(c.view(np.ndarray), xa.view(np.ndarray), ya.view(np.ndarray))
    o = np.empty(cb.shape, dtype=object)
    for i in np.ndindex(*cb.shape):
        o[i] = cast_elem(core.ite(core.tb(cb[i]), xb[i], yb[i]), dt)
    return unwrap0(wrap(o, dt)) if o.ndim else wrap(o, dt)


@implements(np.where)
def _where(c, *xy):
    return where_fn(c, *xy)


@implements(np.nonzero)
def _nonzero(a):
    return as_sarr(a).nonzero()


@implements(np.flatnonzero)
def _flatnonzero(a):
    return as_sarr(a).ravel().nonzero()[0]


@implements(np.argwhere)
def _argwhere(a):
    nz = [x.native() for x in as_sarr(a).nonzero()]
    return from_native(np.transpose(nz))


@implements(np.count_nonzero)
def _count_nonzero(a, axis=None, keepdims=False):
    a = as_sarr(a)
    return (a != 0).sum(axis=axis, keepdims=keepdims) if a._sd != BOOL else a.sum(axis=axis, keepdims=keepdims)


@implements(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return as_sarr(a).sum(axis=axis, dtype=dtype, out=out, keepdims=False if keepdims is np._NoValue else keepdims,
                          initial=initial, where=True if where is np._NoValue else where)


@implements(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_sarr(a).prod(axis=axis, dtype=dtype)


@implements(np.mean)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_sarr(a).mean(axis=axis, keepdims=False if keepdims is np._NoValue else keepdims)


@implements(np.average)
def _average(a, axis=None, weights=None, returned=False, **k):
    a = as_sarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = as_sarr(weights)
    if w.shape != a.shape and w.ndim == 1 and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
        ws = np.broadcast_to(w, a.shape, subok=True).sum(axis=axis)
    else:
        ws = w.sum(axis=axis)
    r = (a * w).sum(axis=axis) / ws
    return (r, ws) if returned else r


@implements(np.var)
def _var(a, axis=None, ddof=0, keepdims=False, **k):
    return as_sarr(a).var(axis=axis, ddof=ddof, keepdims=False if keepdims is np._NoValue else keepdims)


@implements(np.std)
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return as_sarr(a).std(axis=axis, ddof=ddof, keepdims=False if keepdims is np._NoValue else keepdims)


@implements(np.max, np.amax)
def _max(a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return as_sarr(a).max(axis=axis, keepdims=False if keepdims is np._NoValue else keepdims, initial=initial)


@implements(np.min, np.amin)
def _min(a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return as_sarr(a).min(axis=axis, keepdims=False if keepdims is np._NoValue else keepdims, initial=initial)


@implements(np.ptp)
def _ptp(a, axis=None, **k):
    return as_sarr(a).max(axis=axis) - as_sarr(a).min(axis=axis)


@implements(np.any)
def _any(a, axis=None, out=None, keepdims=False, **k):
    return as_sarr(a).any(axis=axis)


@implements(np.all)
def _all(a, axis=None, out=None, keepdims=False, **k):
    return as_sarr(a).all(axis=axis)


@implements(np.cumsum)
def _cumsum(a, axis=None, dtype=None, out=None):
    return as_sarr(a).cumsum(axis=axis)


@implements(np.dot, np.inner)
def _dot(a, b, out=None):
    return np_dot(a, b)


@implements(np.vdot)
def _vdot(a, b):
    return np_dot(np.conjugate(as_sarr(a).ravel()), as_sarr(b).ravel())


@implements(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    return as_sarr(a).clip(None if a_min is np._NoValue else a_min, None if a_max is np._NoValue else a_max, out)


def _nanred(f):
    def g(a, axis=None, **k):
        a = as_sarr(a)
        def h(lst):
            l = [x for x in lst if not (core._nan(x))]
            return f(l)
        return unwrap0(wrap(reduce_axes(a, axis, h, bool(k.get("keepdims", False)) and k["keepdims"] is not np._NoValue), F64 if a._sd.kind != "c" else a._sd))
    return g


HANDLED[np.nansum] = _nanred(lambda l: sum_list(l, F64) if l else 0.0)
HANDLED[np.nanmean] = _nanred(lambda l: core.div(sum_list(l, F64), float(len(l))) if l else math.nan)
HANDLED[np.nanmax] = _nanred(lambda l: _fold(core.maximum, l) if l else math.nan)
HANDLED[np.nanmin] = _nanred(lambda l: _fold(core.minimum, l) if l else math.nan)


def sorted_network(lst):
    l = list(lst)
    n = len(l)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = l[j], l[j + 1]
            if not is_sym(a) and not is_sym(b):
                if a > b:
                    l[j], l[j + 1] = b, a
                continue
            c = core.le(a, b)
            l[j], l[j + 1] = core.ite(c, a, b), core.ite(c, b, a)
    return l


def sort(a, axis=-1, **k):
    a = as_sarr(a).copy()
    if axis is None:
        a = a.ravel()
        axis = -1
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    for i in np.ndindex(*v.shape[:-1]):
        row = list(v[i])
        nans = [x for x in row if core._nan(x)]
        rest = sorted_network([x for x in row if not core._nan(x)])
        res = rest + nans
        for j, x in enumerate(res):
            v[i + (j,)] = x
    return a


@implements(np.sort)
def _sort(a, axis=-1, **k):
    return sort(a, axis)


def _cmp_key(x, y):
    if core._nan(x):
        return 0 if core._nan(y) else 1
    if core._nan(y):
        return -1
    if bool(core.lt(x, y)):
        return -1
    if bool(core.lt(y, x)):
        return 1
    return 0


def argsort(a, axis=-1, **k):
    a = as_sarr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    o = np.empty(v.shape, dtype=np.int64)
    for i in np.ndindex(*v.shape[:-1]):
        row = list(v[i])
        o[i] = sorted(range(len(row)), key=functools.cmp_to_key(lambda p, q: _cmp_key(row[p], row[q])))
    return from_native(np.moveaxis(o, -1, axis))


@implements(np.argsort)
def _argsort(a, axis=-1, **k):
    return argsort(a, axis)


@implements(np.lexsort)
def _lexsort(keys, axis=-1):
    ks = [list(as_sarr(k).view(np.ndarray)) for k in keys]
    def c(p, q):
        for row in reversed(ks):
            r = _cmp_key(row[p], row[q])
            if r:
                return r
        return 0
    return from_native(np.array(sorted(range(len(ks[0])), key=functools.cmp_to_key(c)), dtype=np.int64))


@implements(np.partition)
def _partition(a, kth, axis=-1, **k):
    return sort(a, axis)


@implements(np.argpartition)
def _argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


@implements(np.median)
def _median(a, axis=None, **k):
    a = as_sarr(a)

    def f(l):
        if any(core._nan(x) for x in l):
            return math.nan
        s = sorted_network(l)
        n = len(s)
        if n == 0:
            return math.nan
        return s[n // 2] if n % 2 else core.div(core.add(s[n // 2 - 1], s[n // 2]), 2.0)

    return unwrap0(wrap(reduce_axes(a, axis, f), F64))


@implements(np.percentile)
def _percentile(a, q, axis=None, **k):
    a = as_sarr(a)

    def f(l):
        s = sorted_network(l)
        p = float(q) / 100.0 * (len(s) - 1)
        i = int(math.floor(p))
        j = min(i + 1, len(s) - 1)
        return core.add(s[i], core.mul(core.sub(s[j], s[i]), p - i))

    return unwrap0(wrap(reduce_axes(a, axis, f), F64))


def arg_ext(a, axis, ismax):
    a = as_sarr(a)
    if not a.has_sym():
        return rewrap(a.native().argmax(axis) if ismax else a.native().argmin(axis))

    def f(l):
        for i, x in enumerate(l):
            if core._nan(x):
                return i
        bi, bv = 0, l[0]
        for i, x in enumerate(l[1:], 1):
            c = core.gt(x, bv) if ismax else core.lt(x, bv)
            bi = core.ite(c, i, bi)
            bv = core.ite(c, x, bv)
        return bi

    return unwrap0(wrap(reduce_axes(a, axis, f), I64))


@implements(np.argmax)
def _argmax(a, axis=None, out=None, **k):
    return arg_ext(a, axis, True)


@implements(np.argmin)
def _argmin(a, axis=None, out=None, **k):
    return arg_ext(a, axis, False)


def searchsorted(a, v, side="left", sorter=None):
    a = list(as_sarr(a).view(np.ndarray))
    v = as_sarr(v)

    def f(x):
        cs = []
        for b in a:
            if core._nan(x):
                cs.append(True)
            else:
                cs.append(core.lt(b, x) if side == "left" else core.le(b, x))
        return sum_list([core.to_num(c) for c in cs], I64)

    o = np.empty(v.shape, dtype=object)
    for i in np.ndindex(*v.shape):
        o[i] = f(v.view(np.ndarray)[i])
    return unwrap0(wrap(o, I64))


@implements(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    return searchsorted(a, v, side)


@implements(np.digitize)
def _digitize(x, bins, right=False):
    b = as_sarr(bins)
    bl = list(b.view(np.ndarray))
    inc = True
    if len(bl) > 1:
        up = core.and_(*[core.le(p, q) for p, q in zip(bl, bl[1:])])
        if not bool(up):
            inc = False
            if not bool(core.and_(*[core.ge(p, q) for p, q in zip(bl, bl[1:])])):
                raise ValueError("bins must be monotonically increasing or decreasing")
    side = "left" if right else "right"
    if inc:
        return searchsorted(b, x, side)
    r = searchsorted(b[::-1], x, side)
    return len(bl) - r


@implements(np.bincount)
def _bincount(x, weights=None, minlength=0):
    x = as_sarr(x)
    if x._sd.kind == "f":
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    if x.ndim != 1:
        raise ValueError("object of too small depth for desired array" if x.ndim == 0 else "object too deep for desired array")
    xs = list(x.view(np.ndarray))
    if not xs:
        return from_native(np.zeros(minlength, dtype=float if weights is not None else np.int64))
    if bool(core.or_(*[core.lt(v, 0) for v in xs])):
        raise ValueError("'list' argument must have no negative elements")
    n = max(int(_fold(core.maximum, xs)) + 1, int(minlength))
    if weights is not None:
        ws = list(as_sarr(weights).ravel().view(np.ndarray))
        if len(ws) != len(xs):
            raise ValueError("The weights and list don't have the same length.")
        for w in ws:
            if core._bad(w):
                xs2 = [int(v) for v in xs]
                out = [0.0] * n
                for v, w2 in zip(xs2, ws):
                    out[v] = core.add(out[v], cast_elem(w2, F64))
                o = np.empty(n, dtype=object)
                o[:] = out
                return wrap(o, F64)
        o = np.empty(n, dtype=object)
        for k in range(n):
            o[k] = cast_elem(sum_list([core.ite(core.eq(v, k), cast_elem(w, F64), 0.0) for v, w in zip(xs, ws)], F64), F64)
        return wrap(o, F64)
    o = np.empty(n, dtype=object)
    for k in range(n):
        o[k] = sum_list([core.to_num(core.eq(v, k)) for v in xs], I64)
    return wrap(o, I64)


@implements(np.histogram)
def _histogram(a, bins=10, range=None, density=None, weights=None):
    a = as_sarr(a).ravel()
    if np.ndim(bins) == 0:
        nb = int(bins)
        if range is None:
            lo, hi = a.min(), a.max()
            if bool(core.eq(core.norm_num(lo), core.norm_num(hi))):
                lo, hi = lo - 0.5, hi + 0.5
        else:
            lo, hi = range
        lo, hi = core.norm_num(lo), core.norm_num(hi)
        if not is_sym(lo) and not is_sym(hi):
            edges = from_native(np.linspace(lo, hi, nb + 1))
        else:
            o = np.empty(nb + 1, dtype=object)
            for i in np.arange(nb + 1):
                o[i] = core.add(lo, core.mul(core.sub(hi, lo), core.div(float(i), float(nb))))
            edges = wrap(o, F64)
    else:
        edges = as_sarr(bins)
    e = list(edges.view(np.ndarray))
    n = len(e) - 1
    av = list(a.view(np.ndarray))
    ws = [1] * len(av) if weights is None else list(as_sarr(weights).ravel().view(np.ndarray))
    o = np.empty(n, dtype=object)
    for k in builtins_range(n):
        terms = []
        for x, w in zip(av, ws):
            c = core.and_(core.ge(x, e[k]), core.lt(x, e[k + 1]) if k < n - 1 else core.le(x, e[k + 1]))
            terms.append(core.ite(c, w, 0))
        dt = I64 if weights is None else as_sarr(weights)._sd
        o[k] = cast_elem(sum_list(terms, dt), dt)
    r = wrap(o, I64 if weights is None else as_sarr(weights)._sd)
    if density:
        db = np.diff(edges)
        r = r / db / r.sum()
    return r, edges


import builtins

builtins_range = builtins.range


@implements(np.unique)
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = as_sarr(a)
    if a._sd.kind in "iub":
        f = a.force()
        return rewrap(np.unique(f, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis))
    if axis is not None:
        raise Unsupported("unique axis")
    v = list(a.ravel().view(np.ndarray))
    order = sorted(range(len(v)), key=functools.cmp_to_key(lambda p, q: _cmp_key(v[p], v[q])))
    groups = []
    for i in order:
        if groups and not bool(core.lt(v[groups[-1][0]], v[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    o = np.empty(len(groups), dtype=object)
    for j, g in enumerate(groups):
        o[j] = v[g[0]]
    out = [wrap(o, a._sd)]
    if return_index:
        out.append(from_native(np.array([min(g) for g in groups], dtype=np.int64)))
    if return_inverse:
        inv = np.zeros(len(v), dtype=np.int64)
        for j, g in enumerate(groups):
            inv[g] = j
        out.append(from_native(inv.reshape(a.shape)))
    if return_counts:
        out.append(from_native(np.array([len(g) for g in groups], dtype=np.int64)))
    return out[0] if len(out) == 1 else tuple(out)


@implements(np.isin)
def _isin(a, test, assume_unique=False, invert=False, **k):
    a, t = as_sarr(a), as_sarr(test).ravel()
    o = np.empty(a.shape, dtype=object)
    tv = list(t.view(np.ndarray))
    for i in np.ndindex(*a.shape):
        r = core.or_(*[core.eq(a.view(np.ndarray)[i], q) for q in tv])
        o[i] = core.not_(r) if invert else r
    return wrap(o, BOOL)


@implements(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    x = as_sarr(x)
    xs, fs = list(as_sarr(xp).view(np.ndarray)), list(as_sarr(fp).view(np.ndarray))
    left = fs[0] if left is None else left
    right = fs[-1] if right is None else right

    def f(v):
        if core._nan(v):
            return v
        n = len(xs)
        # rightmost interval wins, as numpy's binary search does
        if bool(core.lt(v, xs[0])):
            return left
        if bool(core.gt(v, xs[-1])):
            return right
        for j in range(n - 2, -1, -1):
            if bool(core.ge(v, xs[j])):
                if bool(core.eq(v, xs[j + 1])) and j == n - 2:
                    return fs[n - 1]
                if core._bad(fs[j]) or core._bad(fs[j + 1]):
                    if bool(core.eq(v, xs[j])):
                        return fs[j]
                slope = core.div(core.sub(fs[j + 1], fs[j]), core.sub(xs[j + 1], xs[j]))
                return core.add(core.mul(slope, core.sub(v, xs[j])), fs[j])
        return fs[0]

    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        o[i] = f(x.view(np.ndarray)[i])
    return unwrap0(wrap(o, F64))


@implements(np.diff)
def _diff(a, n=1, axis=-1, **k):
    a = as_sarr(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)] if a._sd != BOOL else a[tuple(sl1)] != a[tuple(sl2)]
    return a


@implements(np.round, np.around)
def _round(a, decimals=0, out=None):
    if is_sym(a):
        if core.is_intlike(a) and int(decimals) >= 0:
            return a
        s = 10.0 ** int(decimals)
        return core.rint(a) if s == 1 else core.div(core.rint(core.mul(a, s)), s)
    return as_sarr(a).round(decimals)


@implements(np.convolve)
def _convolve(a, v, mode="full"):
    a, v = as_sarr(a), as_sarr(v)
    A, V = list(a.view(np.ndarray)), list(v.view(np.ndarray))
    if len(V) > len(A):
        A, V = V, A
    dt = np.result_type(a._sd, v._sd)
    full = []
    for k in range(len(A) + len(V) - 1):
        full.append(sum_list([core.mul(A[i], V[k - i]) for i in range(len(A)) if 0 <= k - i < len(V)], dt))
    if mode == "same":
        s = (len(V) - 1) // 2
        full = full[s : s + len(A)]
    elif mode == "valid":
        full = full[len(V) - 1 : len(A)]
    o = np.empty(len(full), dtype=object)
    o[:] = full
    return wrap(o, dt)


@implements(np.correlate)
def _correlate(a, v, mode="valid"):
    v = as_sarr(v)
    if v._sd.kind == "c":
        raise Unsupported("complex correlate")
    if len(v) > len(as_sarr(a)):
        raise Unsupported("correlate with a longer second array")
    return _convolve(a, v[::-1], mode)


def _shape_fn(func):
    """functions that only move elements: run numpy on the object view"""

    def g(a, *args, **kw):
        a = as_sarr(a)
        r = func(a.view(np.ndarray), *denat(list(args)), **denat(kw))
        if isinstance(r, list):
            return [wrap(x, a._sd) for x in r]
        return wrap(r, a._sd)

    return g


for _f in (np.transpose, np.reshape, np.ravel, np.squeeze, np.expand_dims, np.swapaxes, np.moveaxis, np.rollaxis,
           np.roll, np.rot90, np.flip, np.fliplr, np.flipud, np.repeat, np.tile, np.broadcast_to, np.diagonal,
           np.triu, np.tril, np.split, np.array_split, np.delete, np.atleast_1d, np.atleast_2d, np.atleast_3d,
           np.fft.fftshift, np.fft.ifftshift, np.resize, np.hsplit, np.vsplit):
    ALWAYS[_f] = _shape_fn(_f)


def _b2(*a, **k):
    arrs = [as_sarr(x) for x in a]
    r = np.broadcast_arrays(*[x.view(np.ndarray) for x in arrs])
    return tuple(wrap(x, s._sd) for x, s in zip(r, arrs))


ALWAYS[np.broadcast_arrays] = _b2


def _cat(func):
    def g(seq, *args, **kw):
        if isinstance(seq, np.ndarray):
            seq = list(as_sarr(seq))
        subs = [as_sarr(x) for x in seq]
        dt = functools.reduce(np.promote_types, [s._sd for s in subs])
        kw.pop("dtype", None)
        r = func([s.astype(dt).view(np.ndarray) for s in subs], *args, **kw)
        return wrap(r, dt)

    return g


for _f in (np.concatenate, np.stack, np.vstack, np.hstack, np.dstack, np.column_stack):
    ALWAYS[_f] = _cat(_f)


def _append(a, v, axis=None):
    if axis is None:
        return np.concatenate([as_sarr(a).ravel(), as_sarr(v).ravel()])
    return np.concatenate([as_sarr(a), as_sarr(v)], axis=axis)


ALWAYS[np.append] = _append


def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = src


ALWAYS[np.copyto] = _copyto
ALWAYS[np.copy] = lambda a, *x, **k: as_sarr(a).copy()
ALWAYS[np.shape] = lambda a: as_sarr(a).shape
ALWAYS[np.size] = lambda a, axis=None: as_sarr(a).size if axis is None else as_sarr(a).shape[axis]
ALWAYS[np.ndim] = lambda a: as_sarr(a).ndim


def _like(val):
    def g(a, *args, dtype=None, shape=None, **k):
        fill = val if val is not None else args[0]
        if val is not None and args and dtype is None:
            dtype = args[0]
        if type(a) is np.ndarray and a.dtype == object and dtype is None and not has_sym(a):
            return np.full(a.shape if shape is None else shape, fill, dtype=object)
        a = as_sarr(a)
        dt = a._sd if dtype is None else to_dtype(dtype)
        shp = a.shape if shape is None else shape
        o = np.empty(shp, dtype=object)
        x = cast_elem(core.norm_num(fill), dt)
        o[...] = x
        return wrap(o, dt)

    return g


ALWAYS[np.zeros_like] = _like(0)
ALWAYS[np.ones_like] = _like(1)
ALWAYS[np.empty_like] = _like(0)
ALWAYS[np.full_like] = _like(None)


def _iscomplexobj(a):
    return as_sarr(a)._sd.kind == "c"


ALWAYS[np.iscomplexobj] = _iscomplexobj
ALWAYS[np.isrealobj] = lambda a: not _iscomplexobj(a)


@implements(np.real)
def _real(a):
    return as_sarr(a).real if not is_sym(a) else a.real


@implements(np.imag)
def _imag(a):
    return as_sarr(a).imag if not is_sym(a) else a.imag


@implements(np.angle)
def _angle(z, deg=False):
    z = as_sarr(z)
    r = np.arctan2(z.imag, z.real)
    return r * (180 / np.pi) if deg else r


@implements(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = as_sarr(a), as_sarr(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


@implements(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return (np.abs(as_sarr(a) - b) <= atol + rtol * np.abs(b)).all()


@implements(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(as_sarr(a) - b) <= atol + rtol * np.abs(b)


@implements(np.ravel_multi_index)
def _rmi(mi, dims, mode="raise", order="C"):
    r = 0
    for x, d in zip(mi, dims):
        x = as_sarr(x)
        if bool(core.or_((x < 0).any(), (x >= d).any())):
            raise ValueError("invalid entry in coordinates array")
        r = r * d + x
    return r


@implements(np.unravel_index)
def _uri(idx, shape, order="C"):
    out = []
    for d in reversed(shape):
        out.append(idx % d)
        idx = idx // d
    return tuple(reversed(out))


@implements(np.take)
def _take(a, idx, axis=None, **k):
    return as_sarr(a).take(idx, axis)


@implements(np.compress)
def _compress(c, a, axis=None, **k):
    c = as_sarr(c).force()
    a = as_sarr(a)
    return wrap(np.compress(c, a.view(np.ndarray), axis=axis), a._sd)


@implements(np.outer)
def _outer(a, b, out=None):
    return ufunc_dispatch(np.multiply, "outer", (as_sarr(a).ravel(), as_sarr(b).ravel()), {})


@implements(np.histogram2d)
def _hist2d(x, y, bins=10, range=None, density=None, weights=None):
    raise Unsupported("histogram2d")


@implements(np.piecewise)
def _piecewise(*a, **k):
    raise Unsupported("piecewise")


@implements(np.select)
def _select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where_fn(c, v, r)
    return r


@implements(np.apply_along_axis)
def _aaa(f, axis, a, *args, **kw):
    a = as_sarr(a)
    v = np.moveaxis(a, axis, -1)
    res = [f(v[i], *args, **kw) for i in np.ndindex(*v.shape[:-1])]
    r = as_sarr(res)
    r = r.reshape(v.shape[:-1] + r.shape[1:])
    if r.ndim == a.ndim:
        r = np.moveaxis(r, -1, axis)
    return r


# exact DFT by definition; twiddle factors that are multiples of 90 degrees are exact
def _tw(k, n, sgn):
    k %= n
    if (4 * k) % n == 0:
        return [1, 1j, -1, -1j][(4 * k) // n] if sgn > 0 else [1, -1j, -1, 1j][(4 * k) // n]
    a = sgn * 2 * math.pi * k / n
    return complex(math.cos(a), math.sin(a))


def dft_axis(a, axis, inverse, n=None, norm=None):
    a = as_sarr(a).astype(complex)
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    n0 = v.shape[-1]
    n = n0 if n is None else n
    o = np.empty(v.shape[:-1] + (n,), dtype=object)
    if norm not in (None, "backward", "ortho", "forward"):
        raise ValueError("Invalid norm value")
    den = math.sqrt(n) if norm == "ortho" else float(n) if inverse != (norm == "forward") else None
    for i in np.ndindex(*v.shape[:-1]):
        for k in range(n):
            acc = 0.0
            for j in range(min(n, n0)):
                acc = core.add(acc, core.mul(_tw(j * k, n, 1 if inverse else -1), v[i + (j,)]))
            if den is not None:
                acc = core.div(acc, den)
            o[i + (k,)] = cast_elem(acc, C128)
    return wrap(np.moveaxis(o, -1, axis), C128)


def _fftn(inverse, axes0):
    def g(a, s=None, axes=None, norm=None, **k):
        a = as_sarr(a)
        ax = list(range(a.ndim)) if axes is None and axes0 is None else (list(axes0) if axes is None else list(axes))
        for j, x in enumerate(ax):
            a = dft_axis(a, x, inverse, None if s is None else s[j], norm)
        return a

    return g


HANDLED[np.fft.fftn] = _fftn(False, None)
HANDLED[np.fft.ifftn] = _fftn(True, None)
HANDLED[np.fft.fft2] = _fftn(False, (-2, -1))
HANDLED[np.fft.ifft2] = _fftn(True, (-2, -1))
HANDLED[np.fft.fft] = lambda a, n=None, axis=-1, norm=None, **k: dft_axis(a, axis, False, n, norm)
HANDLED[np.fft.ifft] = lambda a, n=None, axis=-1, norm=None, **k: dft_axis(a, axis, True, n, norm)


def fftconvolve(a, b, mode="full", axes=None):
    """contract of scipy.signal.fftconvolve: linear convolution"""
    a, b = as_sarr(a), as_sarr(b)
    if not a.has_sym() and not b.has_sym():
        from scipy.signal import fftconvolve as f

        return rewrap(f(a.native(), b.native(), mode=mode))
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    dt = np.result_type(a._sd, b._sd, F64)
    full = tuple(x + y - 1 for x, y in zip(A.shape, B.shape))
    o = np.empty(full, dtype=object)
    terms = {i: [] for i in np.ndindex(*full)}
    for i in np.ndindex(*A.shape):
        if not is_sym(A[i]) and A[i] == 0:
            continue
        for j in np.ndindex(*B.shape):
            t = core.mul(A[i], B[j])
            if is_sym(t) or t != 0:
                terms[tuple(p + q for p, q in zip(i, j))].append(t)
    for i in terms:
        o[i] = cast_elem(sum_list(terms[i], dt), dt)
    if mode == "same":
        sl = tuple(slice((f - n) // 2, (f - n) // 2 + n) for f, n in zip(full, A.shape))
        o = o[sl]
    elif mode == "valid":
        if not all(x >= y for x, y in zip(A.shape, B.shape)):
            if not all(x <= y for x, y in zip(A.shape, B.shape)):
                raise ValueError("For 'valid' mode, one must be at least as large as the other in every dimension")
            A, B = B, A
        o = o[tuple(slice(m - 1, n) for n, m in zip(A.shape, B.shape))]
    return wrap(o, dt)


@implements(np.gradient)
def _gradient(f, *varargs, axis=None, edge_order=1):
    raise Unsupported("gradient")


@implements(np.linalg.inv)
def _inv(a):
    a = as_sarr(a)
    v = a.view(np.ndarray)
    n = v.shape[0]
    if v.shape != (n, n) or n > 3:
        raise Unsupported("inverse of shape %s" % (v.shape,))
    m = [[core.norm_num(v[i, j]) for j in range(n)] for i in range(n)]

    def det(q):
        if len(q) == 1:
            return q[0][0]
        r = 0
        for j in range(len(q)):
            t = core.mul(q[0][j], det([row[:j] + row[j + 1:] for row in q[1:]]))
            r = core.add(r, t) if j % 2 == 0 else core.sub(r, t)
        return r

    d = det(m)
    if bool(core.eq(d, 0)):
        raise np.linalg.LinAlgError("Singular matrix")
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mi = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
            cf = det(mi) if mi else 1.0
            if (i + j) % 2:
                cf = core.neg(cf)
            o[i, j] = core.div(core.mul(cf, 1.0), d)
    return wrap(o, np.dtype(float))


@implements(np.linalg.lstsq)
def _lstsq(a, b, rcond=None):
    """least squares by the normal equations (full column rank; a rank-deficient matrix has no model)"""
    a, b = as_sarr(a), as_sarr(b)
    for x in (a, b):
        if x.dtype == np.float16:
            raise TypeError("array type float16 is unsupported in linalg")
    v, w = a.view(np.ndarray), b.view(np.ndarray)
    if v.ndim != 2 or v.shape[1] > 3:
        raise Unsupported("lstsq of shape %s" % (v.shape,))
    m, n = v.shape
    if w.shape[0] != m:
        raise np.linalg.LinAlgError("Incompatible dimensions")
    if m < n:
        raise Unsupported("underdetermined lstsq")
    A = [[core.norm_num(v[i, j]) for j in range(n)] for i in range(m)]
    if not any(is_sym(x) for row in A for x in row):
        from fractions import Fraction

        A = [[Fraction(x) for x in row] for row in A]
        G = [[sum(A[k][i] * A[k][j] for k in range(m)) for j in range(n)] for i in range(n)]
        M = [G[i] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for i in range(n):
            p = next((r for r in range(i, n) if M[r][i] != 0), None)
            if p is None:
                raise Unsupported("rank-deficient lstsq")
            M[i], M[p] = M[p], M[i]
            q = M[i][i]
            M[i] = [x / q for x in M[i]]
            for r in range(n):
                if r != i:
                    f = M[r][i]
                    M[r] = [x - f * y for x, y in zip(M[r], M[i])]
        P = [[sum(M[i][n + j] * A[k][j] for j in range(n)) for k in range(m)] for i in range(n)]

        def lin(col):
            o = []
            for i in range(n):
                t = core.z3.RealVal(0)
                for k in range(m):
                    t = t + core.z3.Q(P[i][k].numerator, P[i][k].denominator) * core.zreal(col[k])
                o.append(core.mk(core.z3.simplify(t)))
            return o
    else:
        G = [[sum_list([core.mul(A[k][i], A[k][j]) for k in range(m)], F64) for j in range(n)] for i in range(n)]
        o_ = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                o_[i, j] = G[i][j]
        try:
            Gi = _inv(wrap(o_, F64)).view(np.ndarray)
        except np.linalg.LinAlgError:
            raise Unsupported("rank-deficient lstsq")

        def lin(col):
            r = [sum_list([core.mul(A[k][i], col[k]) for k in range(m)], F64) for i in range(n)]
            return [sum_list([core.mul(Gi[i, j], r[j]) for j in range(n)], F64) for i in range(n)]
    if w.ndim == 1:
        sol = np.empty(n, dtype=object)
        sol[:] = lin([core.norm_num(x) for x in w])
    else:
        sol = np.empty((n, w.shape[1]), dtype=object)
        for c_ in range(w.shape[1]):
            sol[:, c_] = lin([core.norm_num(x) for x in w[:, c_]])
    sol = wrap(sol, F64)
    d = as_sarr(b) - np.dot(a, sol)
    return sol, (d * d).sum(axis=0), n, None


@implements(np.linalg.solve)
def _solve(a, b):
    return np.dot(_inv(a), as_sarr(b))


@implements(np.polyfit)
def _polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    if full or cov or w is not None:
        raise Unsupported("polyfit options")
    x = as_sarr(x)
    return _lstsq(np.stack([x ** k for k in range(deg, -1, -1)], axis=1), y)[0]


@implements(np.polyval)
def _polyval(p, x):
    r = 0
    for k in flat_list(as_sarr(p)):
        r = r * x + k
    return r


def simpson(y, x=None, dx=1.0, axis=-1):
    """composite Simpson rule of scipy.integrate.simpson (Cartwright's correction for an even number of samples)"""
    y = as_sarr(y)
    if y.ndim != 1:
        raise Unsupported("simpson of %d dimensions" % y.ndim)
    ys = flat_list(y)
    n = len(ys)
    xs = flat_list(as_sarr(x)) if x is not None else [core.mul(dx, float(k)) for k in range(n)]
    if len(xs) != n:
        raise ValueError("If given, length of x along axis must be the same as y.")
    return simpson_list(xs, ys)


def simpson_list(xs, ys):
    n = len(ys)
    if n == 0:
        raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    h = [core.sub(b, a) for a, b in zip(xs, xs[1:])]
    a_, m_, d_ = core.add, core.mul, core.div
    if n == 1:
        return 0.0
    if n == 2:
        return m_(m_(0.5, h[0]), a_(ys[0], ys[1]))
    r = 0.0
    for k in range(0, n - 2 if n % 2 else n - 3, 2):
        h0, h1 = h[k], h[k + 1]
        s = a_(h0, h1)
        t = a_(a_(m_(ys[k], core.sub(2.0, d_(h1, h0))), m_(ys[k + 1], d_(m_(s, s), m_(h0, h1)))), m_(ys[k + 2], core.sub(2.0, d_(h0, h1))))
        r = a_(r, m_(d_(s, 6.0), t))
    if n % 2 == 0:
        h0, h1 = h[-2], h[-1]
        al = d_(a_(m_(2.0, m_(h1, h1)), m_(3.0, m_(h0, h1))), m_(6.0, a_(h0, h1)))
        be = d_(a_(m_(h1, h1), m_(3.0, m_(h0, h1))), m_(6.0, h0))
        et = d_(m_(h1, m_(h1, h1)), m_(6.0, m_(h0, a_(h0, h1))))
        r = a_(r, core.sub(a_(m_(al, ys[-1]), m_(be, ys[-2])), m_(et, ys[-3])))
    return r


@implements(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm")
    x = as_sarr(x)
    if x._sd.kind == "c":
        x2 = x.real * x.real + x.imag * x.imag
    else:
        x2 = x * x
    return np.sqrt(x2.sum(axis=axis, keepdims=keepdims))


def _diag(v, k=0):
    v = as_sarr(v)
    return wrap(np.diag(v.view(np.ndarray), k) if v.ndim == 2 else _diag1(v.view(np.ndarray), k), v._sd)


def _diag1(v, k):
    n = len(v) + abs(k)
    o = np.zeros((n, n), dtype=object)
    for i, x in enumerate(v):
        o[i + max(-k, 0), i + max(k, 0)] = x
    return o


ALWAYS[np.diag] = _diag


def _nanvar_l(l, ddof=0):
    if not l:
        return math.nan
    m = core.div(sum_list(l, F64), float(len(l)))
    d = [core.sub(x, m) for x in l]
    return core.div(sum_list([core.mul(x, x) for x in d], F64), float(len(l) - ddof))


HANDLED[np.nanvar] = _nanred(_nanvar_l)
HANDLED[np.nanstd] = _nanred(lambda l: core.sqrt(_nanvar_l(l)))
HANDLED[np.nanmedian] = _nanred(lambda l: norm_scalar(_median(list_arr(l))) if l else math.nan)


def norm_scalar(x):
    return core.norm_num(x)


def list_arr(l):
    o = np.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        o[i] = x
    return wrap(o, F64)


def _pad(a, pad_width, mode="constant", **kw):
    a = as_sarr(a)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        r = np.pad(np.zeros(a.shape), pad_width, mode="constant", constant_values=1) != 0
        o = np.empty(r.shape, dtype=object)
        o[...] = cast_elem(core.norm_num(cv), a._sd)
        o[~r] = a.view(np.ndarray).ravel()
        return wrap(o, a._sd)
    if mode in ("edge", "reflect", "symmetric", "wrap"):
        idx = np.pad(np.arange(a.size).reshape(a.shape), pad_width, mode=mode, **kw)
        return wrap(a.view(np.ndarray).ravel()[idx], a._sd)
    raise Unsupported("pad mode")


ALWAYS[np.pad] = _pad


def flat_list(a):
    """elements of an array, row major, normalised"""
    return [core.norm_num(x) for x in a.view(np.ndarray).ravel()]


def obj_list(l):
    o = np.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        o[i] = x
    return o
