"""symx.patch - makes skbeam modules use the symbolic numpy while a path runs.

Only names in module globals change (np, scipy functions, int, float, ...);
the functions executed are the ones defined in /repo's current source.
"""
import builtins
import contextlib
import math
import sys
import types

import numpy as np

from . import arr, core
from .arr import SArr, as_sarr, denat, from_native, function_dispatch, has_sym, rewrap, to_dtype, ufunc_dispatch, wrap
from .core import S, SB, SC, Unsupported, is_sym

STUBS = {}  # real function -> replacement (called with symbolic arguments only)


# ------------------------------------------------------------- fake builtins
class _IntMeta(type):
    _symx_real_type = int

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or isinstance(x, S) and x.isint

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SArr) and x.size == 1:
            x = x.view(np.ndarray).flat[0]
        if is_sym(x):
            return core.trunc(x)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class FakeInt(metaclass=_IntMeta):
    _symx_real_type = int
    dtype = np.dtype(int)


class _FloatMeta(type):
    _symx_real_type = float

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, S) and not x.isint

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, SArr) and x.size == 1:
            x = x.view(np.ndarray).flat[0]
        if is_sym(x):
            return S(core.zreal(x))
        if isinstance(x, (str, bytes)):
            v = core.text_value(x)
            if v is not None:
                return v
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FakeFloat(metaclass=_FloatMeta):
    _symx_real_type = float
    dtype = np.dtype(float)
    fromhex = builtins.float.fromhex


class _BoolMeta(type):
    _symx_real_type = bool

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SB))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.bool)

    def __call__(cls, x=False):
        return builtins.bool(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class FakeBool(metaclass=_BoolMeta):
    _symx_real_type = bool
    dtype = np.dtype(bool)


def _items(a):
    return list(a[0]) if len(a) == 1 else list(a)


def fake_max(*a, **k):
    xs = _items(a)
    if not k and xs and any(is_sym(x) for x in xs) and all(is_sym(x) or isinstance(x, (int, float, np.number)) for x in xs):
        return arr._fold(lambda p, q: core.ite(core.gt(q, p), q, p), [core.norm_num(x) for x in xs])
    return builtins.max(*a, **k)


def fake_min(*a, **k):
    xs = _items(a)
    if not k and xs and any(is_sym(x) for x in xs) and all(is_sym(x) or isinstance(x, (int, float, np.number)) for x in xs):
        return arr._fold(lambda p, q: core.ite(core.lt(q, p), q, p), [core.norm_num(x) for x in xs])
    return builtins.min(*a, **k)


def fake_round(x, n=None):
    if is_sym(x):
        return core.rint(x, True) if n is None else _unsup("round digits")
    return builtins.round(x) if n is None else builtins.round(x, n)


def _unsup(m):
    raise Unsupported(m)


def fake_any(xs):
    return builtins.any(xs)


BUILTINS = {"int": FakeInt, "float": FakeFloat, "bool": FakeBool, "max": fake_max, "min": fake_min, "round": fake_round}


def np_savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    if header or footer or not (hasattr(fname, "write")) or not isinstance(fmt, str) or fmt.count("%") != 1:
        raise Unsupported("savetxt options")
    X = as_sarr(X)
    if X.ndim == 1:
        X = X.reshape((-1, 1))
    for i in range(X.shape[0]):
        t = delimiter.join(fmt % core.norm_num(v) for v in arr.flat_list(X[i])) + newline
        try:
            fname.write(t)
        except TypeError:
            fname.write(t.encode("latin1"))


# --------------------------------------------------------------- np creation
def _shape(s):
    if isinstance(s, (SArr, np.ndarray)):
        s = s.tolist() if s.ndim else s.item()
    if isinstance(s, (tuple, list)):
        return tuple(x.__index__() if is_sym(x) else x for x in s)
    if is_sym(s):
        return s.__index__()
    return s


def _filled(val):
    def g(shape, dtype=None, order="C", **k):
        dt = to_dtype(dtype)
        shape = _shape(shape)
        if dt.kind not in "biufc":
            return {0: np.zeros, 1: np.ones}[val](shape, dtype=dt)
        return from_native({0: np.zeros, 1: np.ones}[val](shape, dtype=dt))

    return g


def np_full(shape, fill, dtype=None, order="C", **k):
    dt = to_dtype(dtype) if dtype is not None else (arr.elem_dtype(core.norm_num(fill)) if not isinstance(fill, np.ndarray) else as_sarr(fill)._sd)
    o = np.empty(_shape(shape), dtype=object)
    a = wrap(o, dt)
    a[...] = fill
    return a


def np_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    r = as_sarr(x, dtype)
    if not isinstance(r, SArr):
        return np.array(x, dtype=None if dtype is None else to_dtype(dtype))
    if r is x and copy:
        r = r.copy()
    elif isinstance(x, np.ndarray) and copy and np.shares_memory(r.view(np.ndarray), x.view(np.ndarray)):
        r = r.copy()
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def np_asarray(x, dtype=None, order=None, **k):
    r = as_sarr(x, dtype)
    if not isinstance(r, SArr):
        return np.asarray(x, dtype=None if dtype is None else to_dtype(dtype))
    return r


def np_arange(*a, dtype=None, **k):
    a = [core.norm_num(x) for x in a]
    if any(is_sym(x) for x in a):
        start, stop, step = 0, None, 1
        if len(a) == 1:
            stop = a[0]
        elif len(a) == 2:
            start, stop = a
        else:
            start, stop, step = a
        n = int(core.neg(core.floor_int(core.neg(core.div(core.sub(stop, start), step)))))
        o = np.empty(max(n, 0), dtype=object)
        for i in range(max(n, 0)):
            o[i] = core.add(start, core.mul(i, step))
        r = arr.infer(o)
        if not all(core.is_intlike(x) for x in (start, stop, step)):
            r = r.astype(float)
        return r if dtype is None else r.astype(dtype)
    return from_native(np.arange(*a, dtype=None if dtype is None else to_dtype(dtype)))


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = num.__index__() if is_sym(num) else int(num) if isinstance(num, (SArr, np.ndarray)) else num
    if has_sym(start) or has_sym(stop):
        n = num - 1 if endpoint else num
        start, stop = core.norm_num(start), core.norm_num(stop)
        step = core.div(core.sub(stop, start), float(n)) if n else math.nan
        o = np.empty(num, dtype=object)
        for i in range(num):
            o[i] = core.add(arr.cast_elem(start, arr.F64), core.mul(float(i), step)) if i else arr.cast_elem(start, arr.F64)
        if endpoint and num > 1:
            o[-1] = arr.cast_elem(stop, arr.F64)
        r = wrap(o, arr.F64)
        if dtype is not None:
            r = r.astype(dtype)
        return (r, step) if retstep else r
    return rewrap(np.linspace(denat(start), denat(stop), num, endpoint=endpoint, retstep=retstep,
                              dtype=None if dtype is None else to_dtype(dtype), axis=axis))


def np_meshgrid(*xi, copy=True, sparse=False, indexing="xy"):
    xs = [as_sarr(x).ravel() for x in xi]
    r = np.meshgrid(*[x.view(np.ndarray) for x in xs], indexing=indexing, sparse=sparse, copy=copy)
    return [wrap(v, x._sd) for v, x in zip(r, xs)]


def np_fromiter(it, dtype=None, count=-1):
    return as_sarr(list(it), dtype)


def np_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def np_iterable(x):
    return np.iterable(x) and not is_sym(x)


class _Vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f
        self.otypes = otypes

    def __call__(self, *args):
        b = np.broadcast_arrays(*[as_sarr(a).view(np.ndarray) for a in args])
        o = np.empty(b[0].shape, dtype=object)
        for i in np.ndindex(*b[0].shape):
            o[i] = self.f(*[x[i] for x in b])
        r = arr.infer(o)
        return arr.unwrap0(r)


class _RClass:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if has_sym(ks) or any(isinstance(x, SArr) for x in ks):
            if any(isinstance(x, (str, slice)) for x in ks) or self.real is not np.r_:
                if not has_sym(ks):
                    return rewrap(self.real[tuple(denat(x) for x in ks) if isinstance(k, tuple) else denat(k)])
                parts = []
                for x in ks:
                    if isinstance(x, slice) and not has_sym([x.start, x.stop, x.step]) and not isinstance(x.step, complex):
                        parts.append(from_native(np.r_[x]))
                    elif isinstance(x, str):
                        raise Unsupported("r_ string")
                    else:
                        parts.append(np.atleast_1d(as_sarr(x)))
                if self.real is np.r_:
                    return np.concatenate(parts)
                if all(p.ndim == 1 for p in parts):
                    return np.stack(parts, axis=1)
                raise Unsupported("c_")
            return np.concatenate([np.atleast_1d(as_sarr(x)) for x in ks])
        return rewrap(self.real[k])


NP = {
    "zeros": _filled(0),
    "ones": _filled(1),
    "empty": _filled(0),
    "full": np_full,
    "array": np_array,
    "asarray": np_asarray,
    "asanyarray": np_asarray,
    "ascontiguousarray": lambda x, dtype=None, **k: (lambda r: r if not isinstance(r, np.ndarray) or r.flags["C_CONTIGUOUS"] else r.copy())(np_asarray(x, dtype)),
    "asfarray": lambda x, dtype=float: np_asarray(x, dtype),
    "arange": np_arange,
    "linspace": np_linspace,
    "meshgrid": np_meshgrid,
    "fromiter": np_fromiter,
    "isscalar": np_isscalar,
    "iterable": np_iterable,
    "vectorize": _Vectorize,
    "require": lambda a, dtype=None, requirements=None: np_asarray(a, dtype),
    "ndenumerate": lambda a: ((i, as_sarr(a)[i]) for i in np.ndindex(*as_sarr(a).shape)),
}
IDENT = {getattr(np, k): v for k, v in NP.items() if hasattr(np, k)}


STUBS[np.savetxt] = np_savetxt


def _special(name, real):
    if name in ("r_", "c_"):
        return _RClass(real)
    return None


class UfuncFacade:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        if has_sym(args) or has_sym(kw) or any(isinstance(a, (SArr,)) for a in args) or isinstance(kw.get("out"), SArr):
            if "dtype" in kw:
                kw["dtype"] = to_dtype(kw["dtype"])
            return arr.unwrap0(ufunc_dispatch(self._u, "__call__", args, kw))
        if _obj_in(args):
            return self._u(*args, **{k: denat(v) for k, v in kw.items()})
        return rewrap(self._u(*args, **{k: denat(v) for k, v in kw.items()}))

    def _m(self, method):
        def f(*args, **kw):
            if method == "reduce" and "axis" not in kw and len(args) > 1:
                kw["axis"] = args[1]
                args = args[:1]
            return ufunc_dispatch(self._u, method, tuple(as_sarr(a) if isinstance(a, (list, tuple)) and method != "at" else a for a in args), kw)

        return f

    reduce = property(lambda s: s._m("reduce"))
    accumulate = property(lambda s: s._m("accumulate"))
    outer = property(lambda s: s._m("outer"))
    at = property(lambda s: s._m("at"))

    def __getattr__(self, n):
        return getattr(self._u, n)


class FuncFacade:
    def __init__(self, f):
        self._f = f
        self.__name__ = getattr(f, "__name__", "f")
        self.__doc__ = getattr(f, "__doc__", None)

    def __call__(self, *args, **kw):
        f = self._f
        if _obj_in(args) and f not in STUBS:
            return f(*args, **{k: denat(v) for k, v in kw.items()})
        if f in STUBS and (has_sym(args) or has_sym(kw)):
            return STUBS[f](*args, **kw)
        if getattr(f, "_implementation", None) is not None or f in arr.HANDLED or f in arr.ALWAYS:
            if any(_has_sarr(a) for a in args) or any(_has_sarr(a) for a in kw.values()):
                r = function_dispatch(f, args, kw)
                return r
        elif has_sym(args) or has_sym(kw):
            # not a dispatching function: try it on the objects, else give up
            mod = getattr(f, "__module__", "") or ""
            if mod.startswith("scipy") or mod.startswith("skimage") or mod == "math":
                raise Unsupported("call of %s.%s with symbolic arguments" % (mod, self.__name__))
            return rewrap(f(*args, **kw))
        return rewrap(f(*denat(list(args)), **denat(kw)))

    def __getattr__(self, n):
        return getattr(self._f, n)


def _obj_in(args):
    """native arrays of Python objects (arrays of arrays) stay what they are"""
    return any(type(a) is np.ndarray and a.dtype == object and not has_sym(a) for a in args)


def _has_sarr(x):
    if isinstance(x, SArr) or is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sarr(v) for v in x)
    return False


_fc = {}


def facade_value(v, modname=""):
    try:
        if v in IDENT:
            return IDENT[v]
    except TypeError:
        return v
    if isinstance(v, np.ufunc):
        if v in STUBS:
            return _fc.setdefault(id(v), StubUfunc(v))
        return _fc.setdefault(id(v), UfuncFacade(v))
    if isinstance(v, types.ModuleType):
        return module_facade(v)
    if isinstance(v, type):
        return v
    if callable(v) and not isinstance(v, (FuncFacade, UfuncFacade)):
        return _fc.setdefault(id(v), FuncFacade(v))
    return v


class StubUfunc:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        if has_sym(args):
            return STUBS[self._u](*args, **kw)
        return rewrap(self._u(*denat(list(args)), **denat(kw)))

    def __getattr__(self, n):
        return getattr(self._u, n)


class ModFacade(types.ModuleType):
    def __init__(self, mod, over=None):
        types.ModuleType.__init__(self, mod.__name__)
        self.__dict__["_m"] = mod
        self.__dict__["_over"] = over or {}
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        c = self.__dict__["_cache"]
        if n in c:
            return c[n]
        if n in self.__dict__["_over"]:
            v = self.__dict__["_over"][n]
        else:
            v = getattr(self.__dict__["_m"], n)
            sp = _special(n, v)
            v = sp if sp is not None else facade_value(v)
        c[n] = v
        return v


_mods = {}


def module_facade(m):
    nm = m.__name__
    if not (nm == "numpy" or nm.startswith("numpy.") or nm.startswith("scipy") or nm == "math" or nm.startswith("skimage")):
        return m
    if m in _mods:
        return _mods[m]
    over = dict(NP) if nm == "numpy" else {}
    if nm == "math":
        over = dict(MATH)
    f = ModFacade(m, over)
    _mods[m] = f
    return f


def _m1(fn, real):
    def g(x):
        x = core.norm_num(x)
        return fn(x) if is_sym(x) else real(x)

    return g


MATH = {
    "sqrt": _m1(core.sqrt, math.sqrt),
    "floor": _m1(core.floor_int, math.floor),
    "ceil": _m1(lambda x: core.neg(core.floor_int(core.neg(x))), math.ceil),
    "exp": _m1(core.exp, math.exp),
    "log": lambda x, *b: (core.log(x) if not b else core.div(core.log(x), math.log(*b))) if is_sym(x) else math.log(x, *b),
    "log10": _m1(core.log10, math.log10),
    "sin": _m1(core.sin, math.sin),
    "cos": _m1(core.cos, math.cos),
    "fabs": _m1(core.absolute, math.fabs),
    "trunc": _m1(core.trunc, math.trunc),
    "isnan": _m1(lambda x: False, math.isnan),
    "isinf": _m1(lambda x: False, math.isinf),
    "isfinite": _m1(lambda x: True, math.isfinite),
    "atan2": lambda y, x: core.arctan2(y, x) if is_sym(y) or is_sym(x) else math.atan2(y, x),
}
for _k, _v in MATH.items():
    IDENT[getattr(math, _k)] = _v


class Patcher:
    """installs the symbolic environment into skbeam modules"""

    def __init__(self, prefixes=("skbeam.",), extra_modules=(), overrides=None, skip=()):
        self.prefixes = prefixes
        self.extra = list(extra_modules)
        self.overrides = overrides or {}
        self.skip = skip
        self.plan = None
        self.depth = 0

    def build(self):
        plan = []
        for name, m in list(sys.modules.items()):
            if m is None or not (any(name.startswith(p) for p in self.prefixes) or m in self.extra):
                continue
            if ".tests" in name or name in self.skip or not isinstance(m, types.ModuleType):
                continue
            g = m.__dict__
            for k, v in list(g.items()):
                if k.startswith("__"):
                    continue
                nv = v
                if isinstance(v, types.ModuleType):
                    nv = module_facade(v)
                elif isinstance(v, np.ufunc):
                    nv = facade_value(v)
                elif isinstance(v, type) and (getattr(v, "__module__", None) or "").startswith("scipy") and v in IDENT:
                    nv = IDENT[v]
                elif callable(v) and not isinstance(v, type):
                    mod = getattr(v, "__module__", None) or ""
                    try:
                        known = v in IDENT or v in STUBS
                    except TypeError:
                        known = False
                    if known or mod.split(".")[0] in ("numpy", "scipy", "math", "skimage"):
                        nv = facade_value(v)
                if nv is not v:
                    plan.append((g, k, nv))
            for k, v in BUILTINS.items():
                if k not in g:
                    plan.append((g, k, v))
        for (mod, k), v in self.overrides.items():
            m = sys.modules[mod]
            plan = [p for p in plan if not (p[0] is m.__dict__ and p[1] == k)]
            plan.append((m.__dict__, k, v))
        self.plan = plan

    _MISSING = object()

    def install(self):
        if self.plan is None:
            self.build()
        self.saved = [(g, k, g.get(k, self._MISSING)) for g, k, _ in self.plan]
        for g, k, v in self.plan:
            g[k] = v

    def remove(self):
        for g, k, v in reversed(self.saved):
            if v is self._MISSING:
                g.pop(k, None)
            else:
                g[k] = v

    @contextlib.contextmanager
    def __call__(self):
        self.install()
        self.depth = 1
        try:
            yield
        finally:
            self.depth = 0
            self.remove()

    @contextlib.contextmanager
    def suspended(self):
        if not self.depth:
            yield
            return
        self.remove()
        try:
            yield
        finally:
            self.install()


# ---------------------------------------------------------------- scipy stubs
def nnls_key(A, b):
    """entries of A'A (upper triangle), A'b and b'b"""
    m, n = len(A), len(A[0])
    dot = lambda u, v: arr.sum_list([core.mul(x, y) for x, y in zip(u, v)], arr.F64)
    cols = [[A[i][j] for i in builtins.range(m)] for j in builtins.range(n)]
    return [dot(cols[p], cols[q]) for p in builtins.range(n) for q in builtins.range(p, n)] + [dot(q, b) for q in cols] + [dot(b, b)]


def _install_stubs():
    try:
        import scipy.signal as ss

        STUBS[ss.fftconvolve] = arr.fftconvolve
        STUBS[ss.convolve] = lambda a, b, mode="full", method="auto": arr.fftconvolve(a, b, mode)

        def argrelextrema(data, comparator, axis=0, order=1, mode="clip"):
            a = as_sarr(data)
            if a.ndim != 1 or mode != "clip":
                raise Unsupported("argrelextrema")
            v, n = arr.flat_list(a), a.size
            op = {"greater": core.gt, "less": core.lt, "greater_equal": core.ge, "less_equal": core.le}[comparator.__name__]
            out = []
            for i in range(n):
                ok = True
                for k in range(1, int(order) + 1):
                    ok = core.and_(ok, core.and_(op(v[i], v[min(i + k, n - 1)]), op(v[i], v[max(i - k, 0)])))
                if bool(ok):
                    out.append(i)
            return (from_native(np.array(out, dtype=np.intp)),)

        STUBS[ss.argrelextrema] = argrelextrema
        STUBS[ss.argrelmax] = lambda data, axis=0, order=1, mode="clip": argrelextrema(data, np.greater, axis, order, mode)
        STUBS[ss.argrelmin] = lambda data, axis=0, order=1, mode="clip": argrelextrema(data, np.less, axis, order, mode)
    except ImportError:
        pass
    try:
        import scipy.optimize as so

        def minimize(fun, x0, args=(), method=None, tol=None, options=None, **k):
            """a minimiser is a function of its objective (seen through its values at a few points), its start and its settings"""
            if k:
                raise Unsupported("minimize options")
            x0 = [core.norm_num(v) for v in x0]
            key = [core.norm_num(fun(list(pt), *args)) for pt in ((1.0, 0.0), (0.5, 0.0), (2.0, 1.0))]
            import zlib

            setting = float(zlib.crc32(repr((method, tol, sorted((options or {}).items()))).encode()) % 9973)

            class Res:
                pass

            r = Res()
            o = np.empty(len(x0), dtype=object)
            for j in range(len(x0)):
                o[j] = core.uf("minimize%d" % j, *(key + x0 + [setting]))
            r.x = wrap(o, arr.F64)
            return r

        STUBS[so.minimize] = minimize

        def nnls(A, b, *args, **kw):
            """non-negative least squares is a function of the normal equations"""
            if has_sym(args) or has_sym(kw):
                raise Unsupported("nnls options")
            A, b = as_sarr(A), as_sarr(b)
            if A.ndim != 2 or b.ndim != 1 or A.shape[0] != b.shape[0]:
                raise ValueError("shapes of A and b do not match")
            key = nnls_key([arr.flat_list(A[i]) for i in builtins.range(A.shape[0])], arr.flat_list(b))
            n = A.shape[1]
            o = np.empty(n, dtype=object)
            for j in builtins.range(n):
                o[j] = core.uf("nnls%d_%d" % (n, j), *key[:-1])
            return wrap(o, arr.F64), core.uf("nnls%d_res" % n, *key)

        STUBS[so.nnls] = nnls
    except ImportError:
        pass
    try:
        import scipy.interpolate as sip

        class RGI:
            """multilinear interpolation on a concrete grid at concrete positions"""

            def __init__(self, points, values, method="linear", bounds_error=True, fill_value=np.nan, **k):
                if has_sym(points) or method != "linear" or k:
                    raise Unsupported("RegularGridInterpolator")
                self.p = [np.asarray(denat(as_sarr(q).native() if isinstance(q, SArr) else q), float) for q in points]
                self.v = as_sarr(values)
                self.fill, self.be = fill_value, bounds_error
                self.real = sip.RegularGridInterpolator
                for q in self.p:
                    if not np.all(np.diff(q) > 0):
                        raise ValueError("The points in dimension must be strictly ascending or descending")
                if tuple(len(q) for q in self.p) != self.v.shape:
                    raise ValueError("There are %s points and the values have shape %s" % ([len(q) for q in self.p], self.v.shape))

            def __call__(self, xi, method=None):
                if has_sym(xi):
                    raise Unsupported("RegularGridInterpolator at symbolic positions")
                if isinstance(xi, tuple):
                    xs = np.broadcast_arrays(*[np.asarray(denat(as_sarr(q))) for q in xi])
                    xs = np.stack(xs, axis=-1)
                else:
                    xs = np.asarray(denat(as_sarr(xi)))
                shp, nd = xs.shape[:-1], xs.shape[-1]
                base = self.v.view(np.ndarray)
                o = np.empty(shp, dtype=object)
                for ix in np.ndindex(*shp):
                    pos, outside = [], False
                    for d in range(nd):
                        x, g = xs[ix][d], self.p[d]
                        if not (g[0] <= x <= g[-1]):
                            outside = True
                            break
                        i = min(max(int(np.searchsorted(g, x, side="right")) - 1, 0), len(g) - 2)
                        pos.append((i, float((x - g[i]) / (g[i + 1] - g[i]))))
                    if outside:
                        if self.be:
                            raise ValueError("One of the requested xi is out of bounds")
                        o[ix] = self.fill
                        continue
                    t = 0.0
                    for bits in np.ndindex(*([2] * nd)):
                        w = 1.0
                        for b, (i, f) in zip(bits, pos):
                            w *= f if b else 1 - f
                        t = core.add(t, core.mul(w, core.norm_num(base[tuple(i + b for b, (i, f) in zip(bits, pos))])))
                    o[ix] = t
                return wrap(o, arr.F64)

        IDENT[sip.RegularGridInterpolator] = RGI
    except ImportError:
        pass
    try:
        import scipy.integrate as si

        STUBS[si.simpson] = arr.simpson
    except ImportError:
        pass
    try:
        import scipy.special as sp

        def ufs(name, real):
            def f(*args):
                def g(*xs):
                    if not any(is_sym(x) for x in xs):
                        return float(real(*xs))
                    return core.uf(name, *xs)

                if all(not isinstance(a, np.ndarray) for a in args):
                    return g(*[core.norm_num(a) for a in args])
                b = np.broadcast_arrays(*[as_sarr(a).view(np.ndarray) for a in args])
                o = np.empty(b[0].shape, dtype=object)
                for i in np.ndindex(*b[0].shape):
                    o[i] = g(*[x[i] for x in b])
                return wrap(o, arr.F64)

            return f

        def wofz(z):
            def g(x):
                re, im = core.re_im(core.norm_num(x))
                if not is_sym(re) and not is_sym(im):
                    return complex(sp.wofz(complex(re, im)))
                return core.mkc(core.uf("wofz_re", re, im), core.uf("wofz_im", re, im))

            if not isinstance(z, np.ndarray):
                return g(z)
            a = as_sarr(z)
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                o[i] = g(a.view(np.ndarray)[i])
            return wrap(o, np.dtype(complex))

        STUBS[sp.wofz] = wofz
        for n in ("erf", "erfc", "wofz", "gamma", "gammaln", "voigt_profile"):
            if n != "wofz":
                STUBS[getattr(sp, n)] = ufs(n, getattr(sp, n))
    except ImportError:
        pass


    try:
        import scipy.stats as sts

        class FrozenGamma:
            """the gamma density x^(a-1) exp(-x/scale) / (Gamma(a) scale^a) on x - loc > 0"""

            def __init__(self, a, loc=0, scale=1):
                if is_sym(a) or is_sym(loc):
                    raise Unsupported("gamma density of symbolic shape")
                self.a, self.loc, self.scale = float(a), float(loc), core.norm_num(scale)

            def pdf(self, x):
                import math

                def g(v):
                    v = core.sub(core.norm_num(v), self.loc)
                    if bool(core.lt(v, 0)):
                        return 0.0
                    if bool(core.eq(v, 0)):
                        if self.a == 1:
                            return core.div(1.0, self.scale)
                        return 0.0 if self.a > 1 else math.inf
                    return core.div(core.mul(core.power(v, self.a - 1), core.exp(core.neg(core.div(v, self.scale)))),
                                    core.mul(math.gamma(self.a), core.power(self.scale, self.a)))

                if not isinstance(x, np.ndarray):
                    return g(x)
                o = np.empty(x.shape, dtype=object)
                for i in np.ndindex(*x.shape):
                    o[i] = g(as_sarr(x).view(np.ndarray)[i])
                return wrap(o, arr.F64)

        STUBS[sts.gamma] = FrozenGamma
    except ImportError:
        pass


_install_stubs()


# ------------------------------------------------------------ scipy.ndimage
def _lab_groups(x, labels, index):
    """list of (element lists) per requested label; labels are case-split"""
    a = as_sarr(x)
    if labels is None:
        return [arr.flat_list(a)], True
    lb, a2 = np.broadcast_arrays(as_sarr(labels).view(np.ndarray), a.view(np.ndarray))
    ls = [core.norm_num(v) for v in lb.ravel()]
    es = [core.norm_num(v) for v in a2.ravel()]
    if index is None:
        return [[e for e, l in zip(es, ls) if bool(core.gt(l, 0))]], True
    idx = as_sarr(index)
    scalar = idx.ndim == 0
    out = []
    for q in arr.flat_list(idx):
        out.append([e for e, l in zip(es, ls) if bool(core.eq(l, q))])
    return out, scalar


def _nd(reduce_):
    def f(input, labels=None, index=None):
        g, scalar = _lab_groups(input, labels, index)
        r = [reduce_(x) for x in g]
        if scalar:
            return r[0]
        return arr.infer(arr.obj_list(r)).astype(float)

    return f


def _mean_l(l):
    return core.div(arr.sum_list(l, arr.F64), float(len(l))) if l else math.nan


def _var_l(l):
    if not l:
        return math.nan
    m = _mean_l(l)
    return _mean_l([core.mul(core.sub(x, m), core.sub(x, m)) for x in l])


def _install_ndimage():
    import scipy.ndimage as nd

    def linear_filter(f):
        """a linear filter of scipy.ndimage with concrete parameters, as the linear map it computes on unit images"""

        def g(input, *args, **kw):
            if has_sym(args) or has_sym(kw):
                raise Unsupported("filter with symbolic parameters")
            a = as_sarr(input)
            if a._sd.kind == "c":
                raise Unsupported("complex filter")
            shp, n = a.shape, a.size
            if n > 64:
                raise Unsupported("filter of a large symbolic image")
            es = arr.flat_list(a)
            K = [np.asarray(f(np.eye(n)[i].reshape(shp), *args, **kw)).ravel() for i in range(n)]
            o = np.empty(n, dtype=object)
            for j in range(n):
                o[j] = arr.sum_list([core.mul(float(K[i][j]), es[i]) for i in range(n) if K[i][j] != 0.0], arr.F64)
            return wrap(o.reshape(shp), arr.F64)

        return g

    for n_ in ("gaussian_filter", "gaussian_filter1d", "uniform_filter", "uniform_filter1d", "convolve", "convolve1d", "correlate"):
        STUBS[getattr(nd, n_)] = linear_filter(getattr(nd, n_))
    STUBS[nd.mean] = _nd(_mean_l)
    STUBS[nd.sum_labels] = _nd(lambda l: arr.sum_list(l, arr.F64) if l else 0.0)
    STUBS[nd.sum] = STUBS[nd.sum_labels]
    STUBS[nd.maximum] = _nd(lambda l: arr._fold(core.maximum, l) if l else 0.0)
    STUBS[nd.minimum] = _nd(lambda l: arr._fold(core.minimum, l) if l else 0.0)
    STUBS[nd.variance] = _nd(_var_l)
    STUBS[nd.standard_deviation] = _nd(lambda l: core.sqrt(_var_l(l)) if l else math.nan)


_install_ndimage()


# ------------------------------------------------------- scipy.stats binning
def _binned_statistic(x, values, statistic="mean", bins=10, range=None):
    """scipy.stats.binned_statistic, one value array; last bin closed, points outside dropped"""
    import scipy.stats as sts

    xs = arr.flat_list(as_sarr(x))
    vs = arr.flat_list(as_sarr(values))
    if np.ndim(bins) == 0:
        n = int(bins)
        lo, hi = range if range is not None else (arr._fold(core.minimum, xs), arr._fold(core.maximum, xs))
        edges = np_linspace(lo, hi, n + 1)
    else:
        edges = as_sarr(bins)
    es = arr.flat_list(edges)
    n = len(es) - 1
    groups = [[] for _ in builtins.range(n)]
    num = []
    for p, v in zip(xs, vs):
        k = 0
        if bool(core.lt(p, es[0])):
            num.append(0)
            continue
        for k in builtins.range(n):
            last = k == n - 1
            if bool(core.le(p, es[k + 1]) if last else core.lt(p, es[k + 1])):
                groups[k].append(v)
                num.append(k + 1)
                break
        else:
            num.append(n + 1)
    red = {
        "mean": _mean_l,
        "sum": lambda l: arr.sum_list(l, arr.F64) if l else 0.0,
        "count": lambda l: float(len(l)),
        "std": lambda l: core.sqrt(_var_l(l)) if l else math.nan,
        "min": lambda l: arr._fold(core.minimum, l) if l else math.nan,
        "max": lambda l: arr._fold(core.maximum, l) if l else math.nan,
        "median": lambda l: core.norm_num(arr._median(arr.infer(arr.obj_list(l)))) if l else math.nan,
    }
    def call(l):
        # scipy evaluates a callable on the empty bin too (NaN when that fails)
        return core.norm_num(statistic(arr.infer(arr.obj_list(l)).astype(float))) if l else math.nan
    f = red[statistic] if isinstance(statistic, str) else call
    out = arr.infer(arr.obj_list([f(g) for g in groups])).astype(float)
    return sts._binned_statistic.BinnedStatisticResult(out, edges, from_native(np.array(num)))


def _install_stats():
    import scipy.stats as sts

    STUBS[sts.binned_statistic] = _binned_statistic


_install_stats()
