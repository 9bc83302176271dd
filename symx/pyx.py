"""symx.pyx - runs Cython source symbolically.

The .pyx file is parsed by Cython's own parser; the parse tree is translated to Python source with the C-level
operations made explicit (typed variables are converted on assignment, pointers address memory element by element,
C division, typed buffers check their dimension and element type).  The translation is loaded as a module whose
globals are patched like those of any other skbeam module.
"""
import types

import numpy as np

from . import arr, core
from .core import S, Unsupported, is_sym


class Untranslatable(Unsupported):
    pass


INT = {"int", "long", "short", "char", "Py_ssize_t", "size_t", "ssize_t", "bint", "unsigned", "long long"} | {
    p + t for p in ("", "cnp.", "np.") for t in ("int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "intp_t", "npy_intp", "int_t")}
FLT = {"double", "float"} | {p + t for p in ("", "cnp.", "np.") for t in ("float_t", "float64_t", "float32_t", "double_t")}


class Memory(Exception):
    """access outside the memory of an array"""


class Pointer:
    def __init__(self, a, typ=None):
        self.a, self.typ = a, typ
        base = a
        while isinstance(base.base, np.ndarray):
            base = base.base
        v, b = a.view(np.ndarray), base.view(np.ndarray)
        if not b.flags["C_CONTIGUOUS"]:
            raise Unsupported("pointer into an array that is not contiguous")
        self.mem = b.reshape(-1)
        self.off = (v.__array_interface__["data"][0] - b.__array_interface__["data"][0]) // max(1, b.itemsize)
        self.sd = getattr(a, "_sd", a.dtype)

    def cast(self, typ):
        if typ.rstrip("*").strip() not in ("void", "char"):
            t = typ.rstrip("*").strip()
            want = {"float_t": "f8", "float64_t": "f8", "double": "f8", "float32_t": "f4", "float": "f4", "int64_t": "i8", "int32_t": "i4", "long": "i8", "int": "i4"}.get(t.split(".")[-1])
            if want is None or np.dtype(want) != np.dtype(self.sd):
                raise Unsupported("pointer to %s into an array of %s" % (t, self.sd))
        p = Pointer(self.a, typ)
        return p

    def _k(self, k):
        k = int(k) if not is_sym(k) else k.__index__()
        k += self.off
        if not 0 <= k < len(self.mem):
            raise Memory("element %d of %d" % (k, len(self.mem)))
        return k

    def __getitem__(self, k):
        return core.norm_num(self.mem[self._k(k)])

    def __setitem__(self, k, v):
        self.mem[self._k(k)] = arr.cast_elem(v, np.dtype(self.sd)) if self.mem.dtype == object else v

    def __add__(self, k):
        p = Pointer(self.a, self.typ)
        p.off = self.off + int(k)
        return p


class CArray:
    def __init__(self, n):
        self.v = [None] * int(n)

    def __getitem__(self, k):
        k = int(k)
        if not 0 <= k < len(self.v) or self.v[k] is None:
            raise Memory("C array element %d of %d" % (k, len(self.v)))
        return self.v[k]

    def __setitem__(self, k, v):
        k = int(k)
        if not 0 <= k < len(self.v):
            raise Memory("C array element %d of %d" % (k, len(self.v)))
        self.v[k] = v


class View:
    """typed memoryview or buffer: indexing gives elements, bounds are checked, partial indexing gives views"""

    def __init__(self, a):
        self._a = a

    @staticmethod
    def _k(k):
        if isinstance(k, tuple):
            return tuple(View._k(q) for q in k)
        return k.__index__() if is_sym(k) and not isinstance(k, slice) else k

    def __getitem__(self, k):
        r = self._a[self._k(k)]
        return View(r) if isinstance(r, np.ndarray) and r.ndim else core.norm_num(r)

    def __setitem__(self, k, v):
        self._a[self._k(k)] = v

    def __len__(self):
        return len(self._a)

    def __getattr__(self, n):
        return getattr(self._a, n)


class Runtime:
    """C semantics used by the translated code"""

    def __init__(self):
        self.noise = False

    def i(self, x):
        x = _scalar(x)
        return core.trunc(x) if is_sym(x) and not core.is_intlike(x) else (core.to_num(x) if is_sym(x) else int(x))

    def f(self, x):
        x = _scalar(x)
        return S(core.zreal(x)) if is_sym(x) else float(x)

    def div(self, a, b, cdiv=False):
        a, b = _scalar(a), _scalar(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or not all(is_sym(x) or isinstance(x, (int, float, np.number)) for x in (a, b)):
            return a / b
        if not is_sym(b) and b == 0 or is_sym(b) and bool(core.eq(b, 0)):
            raise ZeroDivisionError("float division")
        q = core.div(a, b)
        if self.noise and is_sym(q):
            c = core.cur()
            r = c.fresh_real("fl")
            c.note_abstract("division rounding")
            z = core.zreal(q)
            e = core.zreal(2.0**-52)
            import z3
            d = z3.If(z >= 0, z, -z) * e
            c.assume_z3(z3.And(r - z <= d, z - r <= d))
            return S(r)
        return q

    def buf(self, x, elem, ndim):
        if x is None or isinstance(x, (View, Pointer)):
            return x
        if not isinstance(x, np.ndarray):
            raise TypeError("Argument has incorrect type (expected numpy.ndarray)")
        if x.ndim != ndim:
            raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (ndim, x.ndim))
        sd = np.dtype(getattr(x, "_sd", x.dtype))
        k = {"float_t": "f8", "float64_t": "f8", "double": "f8", "float32_t": "f4", "int": "i4", "int32_t": "i4", "int64_t": "i8", "long": "i8"}.get(elem.split(".")[-1])
        if k is not None and np.dtype(k) != sd:
            raise ValueError("Buffer dtype mismatch")
        if k is None and sd.kind not in "iuf":
            raise TypeError("No matching signature found")
        return View(x)

    def same(self, *xs):
        """arguments of one fused type"""
        ts = {np.dtype(getattr(x._a, "_sd", x._a.dtype)) for x in xs if isinstance(x, View)}
        if len(ts) > 1:
            raise ValueError("Buffer dtype mismatch")

    def data(self, a):
        return Pointer(a._a if isinstance(a, View) else a)

    def cast(self, typ, x):
        if typ.endswith("*"):
            if not isinstance(x, Pointer):
                raise Unsupported("cast of %r to a pointer" % type(x))
            return x.cast(typ)
        if typ in INT:
            return self.i(x)
        if typ in FLT:
            return self.f(x)
        return x

    carray = staticmethod(CArray)

    def type(self, x):
        from .patch import FakeFloat, FakeInt

        if isinstance(x, S):
            return FakeInt if x.isint else FakeFloat
        return {int: FakeInt, float: FakeFloat}.get(type(x), type(x))


def _scalar(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return core.norm_num(x.view(np.ndarray)[()])
    return core.norm_num(x) if not isinstance(x, np.ndarray) else x


class Translator:
    def __init__(self, consts=None):
        self.fused = set()
        self.types = [{}]

    # -------------------------------------------------------------- types
    def tname(self, b):
        n = type(b).__name__
        if n == "CSimpleBaseTypeNode":
            return ".".join(list(b.module_path) + [b.name]) if b.name else "object"
        if n == "NameNode":
            return b.name
        if n == "AttributeNode":
            return self.tname(b.obj) + "." + b.attribute
        if n == "TemplatedTypeNode":
            return ("buffer", self.tname(b.positional_args[0]), self._ndim(b))
        if n == "MemoryViewSliceTypeNode":
            return ("buffer", self.tname(b.base_type_node), len(b.axes))
        if n == "CConstTypeNode" or n == "CConstOrVolatileTypeNode":
            return self.tname(b.base_type)
        raise Untranslatable("type " + n)

    def _ndim(self, b):
        for kv in (b.keyword_args.key_value_pairs if b.keyword_args else []):
            if kv.key.value == "ndim":
                return int(kv.value.value)
        return 1

    def declare(self, base, d):
        """(name, type, default expression or None)"""
        t = self.tname(base)
        stars = 0
        dims = []
        while True:
            n = type(d).__name__
            if n == "CPtrDeclaratorNode":
                stars += 1
                d = d.base
            elif n == "CArrayDeclaratorNode":
                dims.append(d.dimension)
                d = d.base
            elif n == "CNameDeclaratorNode":
                break
            elif n == "CReferenceDeclaratorNode":
                d = d.base
            else:
                raise Untranslatable("declarator " + n)
        if stars:
            t = t + "*" * stars
        name = d.name
        if not name and isinstance(t, str):  # "def f(x)": the base type is the name
            name, t = t, "object"
        if dims:
            t = ("carray", self.e(dims[0]))
        return name, t, d.default

    def conv(self, t, src):
        if isinstance(t, tuple):
            if t[0] == "buffer":
                return "CSEM.buf(%s, %r, %d)" % (src, t[1], t[2])
            return src
        if t.endswith("*"):
            return src
        if t in INT:
            return "CSEM.i(%s)" % src
        if t in FLT:
            return "CSEM.f(%s)" % src
        return src

    # --------------------------------------------------------- statements
    def block(self, n, ind):
        out = self.s(n, ind)
        return out if out.strip() else "    " * ind + "pass\n"

    def s(self, n, ind):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Untranslatable("statement " + type(n).__name__)
        return m(n, ind)

    def line(self, ind, t):
        return "    " * ind + t + "\n"

    def s_StatListNode(self, n, ind):
        return "".join(self.s(x, ind) for x in n.stats)

    def _skip(self, n, ind):
        return ""

    s_CImportStatNode = s_FromCImportStatNode = s_CDefExternNode = _skip

    def s_CTypeDefNode(self, n, ind):
        raise Untranslatable("ctypedef")

    def s_FusedTypeNode(self, n, ind):
        self.fused.add(n.name)
        return ""

    def s_ExprStatNode(self, n, ind):
        return self.line(ind, self.e(n.expr))

    def s_PassStatNode(self, n, ind):
        return self.line(ind, "pass")

    def s_BreakStatNode(self, n, ind):
        return self.line(ind, "break")

    def s_ContinueStatNode(self, n, ind):
        return self.line(ind, "continue")

    def s_ReturnStatNode(self, n, ind):
        if n.value is None:
            return self.line(ind, "return")
        return self.line(ind, "return " + self.conv(self.ret, self.e(n.value)))

    def s_RaiseStatNode(self, n, ind):
        t = "raise"
        if n.exc_type is not None:
            t += " " + self.e(n.exc_type)
            if n.exc_value is not None:
                t += "(%s)" % self.e(n.exc_value)
            if n.cause is not None:
                t += " from " + self.e(n.cause)
        return self.line(ind, t)

    def s_AssertStatNode(self, n, ind):
        return self.line(ind, "assert " + self.e(n.condition))

    def s_GlobalNode(self, n, ind):
        return self.line(ind, "global " + ", ".join(n.names))

    def s_DelStatNode(self, n, ind):
        return self.line(ind, "del " + ", ".join(self.e(x) for x in n.args))

    def s_IfStatNode(self, n, ind):
        out = ""
        for k, cl in enumerate(n.if_clauses):
            out += self.line(ind, "%s %s:" % ("elif" if k else "if", self.e(cl.condition))) + self.block(cl.body, ind + 1)
        if n.else_clause is not None:
            out += self.line(ind, "else:") + self.block(n.else_clause, ind + 1)
        return out

    def s_WhileStatNode(self, n, ind):
        out = self.line(ind, "while %s:" % (self.e(n.condition) if n.condition is not None else "True")) + self.block(n.body, ind + 1)
        if n.else_clause is not None:
            out += self.line(ind, "else:") + self.block(n.else_clause, ind + 1)
        return out

    def s_ForInStatNode(self, n, ind):
        out = self.line(ind, "for %s in %s:" % (self.e(n.target), self.e(n.iterator.sequence))) + self.block(n.body, ind + 1)
        if n.else_clause is not None:
            out += self.line(ind, "else:") + self.block(n.else_clause, ind + 1)
        return out

    def s_TryExceptStatNode(self, n, ind):
        out = self.line(ind, "try:") + self.block(n.body, ind + 1)
        for x in n.except_clauses:
            h = "except"
            if x.pattern:
                h += " (" + ", ".join(self.e(p) for p in x.pattern) + ",)"
                if x.target is not None:
                    h += " as " + self.e(x.target)
            out += self.line(ind, h + ":") + self.block(x.body, ind + 1)
        if n.else_clause is not None:
            out += self.line(ind, "else:") + self.block(n.else_clause, ind + 1)
        return out

    def s_TryFinallyStatNode(self, n, ind):
        return self.line(ind, "try:") + self.block(n.body, ind + 1) + self.line(ind, "finally:") + self.block(n.finally_clause, ind + 1)

    def s_GILStatNode(self, n, ind):
        return self.line(ind, "if True:") + self.block(n.body, ind + 1)

    def s_WithStatNode(self, n, ind):
        return self.line(ind, "with %s%s:" % (self.e(n.manager), " as " + self.e(n.target) if n.target is not None else "")) + self.block(n.body, ind + 1)

    def assign(self, lhs, rhs):
        if type(lhs).__name__ == "NameNode" and lhs.name in self.types[-1]:
            rhs = self.conv(self.types[-1][lhs.name], rhs)
        return rhs

    def s_SingleAssignmentNode(self, n, ind):
        if type(n.rhs).__name__ == "ImportNode":
            m = n.rhs.module_name.value
            return self.line(ind, "import %s as %s" % (m, n.lhs.name) if n.lhs.name != m.split(".")[0] or "." in m else "import " + m)
        return self.line(ind, "%s = %s" % (self.e(n.lhs), self.assign(n.lhs, self.e(n.rhs))))

    def s_CascadedAssignmentNode(self, n, ind):
        out = self.line(ind, "__t = " + self.e(n.rhs))
        for l in n.lhs_list:
            out += self.line(ind, "%s = %s" % (self.e(l), self.assign(l, "__t")))
        return out

    def s_ParallelAssignmentNode(self, n, ind):
        out = ""
        for k, a in enumerate(n.stats):
            out += self.line(ind, "__p%d = %s" % (k, self.e(a.rhs)))
        for k, a in enumerate(n.stats):
            out += self.line(ind, "%s = %s" % (self.e(a.lhs), self.assign(a.lhs, "__p%d" % k)))
        return out

    def s_InPlaceAssignmentNode(self, n, ind):
        l, r = self.e(n.lhs), self.e(n.rhs)
        if type(n.lhs).__name__ == "NameNode" and n.lhs.name in self.types[-1] and isinstance(self.types[-1][n.lhs.name], str):
            v = "CSEM.div(%s, %s)" % (l, r) if n.operator == "/" else "(%s) %s (%s)" % (l, n.operator, r)
            return self.line(ind, "%s = %s" % (l, self.conv(self.types[-1][n.lhs.name], v)))
        return self.line(ind, "%s %s= %s" % (l, n.operator, r))

    def s_FromImportStatNode(self, n, ind):
        im = n.module
        names = []
        for nm, target in n.items:
            names.append("%s as %s" % (nm, target.name))
        lvl = im.level if isinstance(im.level, int) else 0
        return self.line(ind, "from %s%s import %s" % ("." * max(0, lvl), im.module_name.value, ", ".join(names)))

    def s_CVarDefNode(self, n, ind):
        out = ""
        for d in n.declarators:
            name, t, dflt = self.declare(n.base_type, d)
            self.types[-1][name] = t
            if isinstance(t, tuple) and t[0] == "carray":
                out += self.line(ind, "%s = CSEM.carray(%s)" % (name, t[1]))
            elif dflt is not None:
                out += self.line(ind, "%s = %s" % (name, self.conv(t, self.e(dflt))))
        return out

    def args(self, args, star=None, starstar=None, nkw=0, npos=0):
        parts, pre = [], []
        fused = {}
        n = len(args)
        for k, a in enumerate(args):
            name, t, dflt = self.declare(a.base_type, a.declarator)
            dflt = a.default if a.default is not None else dflt
            if k == n - nkw and nkw:
                parts.append("*" + (star.name if star is not None else ""))
                star = None
            parts.append(name + ("=" + self.e(dflt) if dflt is not None else ""))
            if t != "object":
                self.types[-1][name] = t
                v = self.conv(t, name)
                if v != name:
                    pre.append("%s = %s" % (name, v))
                if isinstance(t, tuple) and t[1] in self.fused:
                    fused.setdefault(t[1], []).append(name)
        if star is not None:
            parts.append("*" + star.name)
        if starstar is not None:
            parts.append("**" + starstar.name)
        for f in fused.values():
            if len(f) > 1:
                pre.append("CSEM.same(%s)" % ", ".join(f))
        return ", ".join(parts), pre

    def func(self, name, args, body, ind, ret="object", star=None, starstar=None, nkw=0, decorators=(), doc=None):
        self.types.append({})
        old = getattr(self, "ret", "object")
        self.ret = ret
        try:
            sig, pre = self.args(args, star, starstar, nkw)
            out = ""
            for d in decorators or ():
                t = self.e(d.decorator)
                if not t.startswith("cython."):
                    out += self.line(ind, "@" + t)
            out += self.line(ind, "def %s(%s):" % (name, sig))
            out += "".join(self.line(ind + 1, p) for p in pre)
            out += self.block(body, ind + 1)
            if ret in INT or ret in FLT:
                out += self.line(ind + 1, "return 0")
            return out
        finally:
            self.types.pop()
            self.ret = old

    def s_CFuncDefNode(self, n, ind):
        d = n.declarator
        stars = 0
        while type(d).__name__ == "CPtrDeclaratorNode":
            stars += 1
            d = d.base
        t = self.tname(n.base_type)
        t = t + "*" * stars if isinstance(t, str) else "object"
        return self.func(d.base.name, d.args, n.body, ind, ret=t, decorators=n.decorators)

    def s_DefNode(self, n, ind):
        return self.func(n.name, n.args, n.body, ind, star=n.star_arg, starstar=n.starstar_arg, nkw=n.num_kwonly_args, decorators=n.decorators)

    def s_PyClassDefNode(self, n, ind):
        bases = ", ".join(self.e(b) for b in n.bases.args) if n.bases is not None else ""
        return self.line(ind, "class %s(%s):" % (n.name, bases)) + self.block(n.body, ind + 1)

    def s_PropertyNode(self, n, ind):
        raise Untranslatable("property")

    # -------------------------------------------------------- expressions
    def e(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            if hasattr(n, "operand1") and hasattr(n, "operator") and type(n).__name__ not in ("PrimaryCmpNode",):
                a, b = self.e(n.operand1), self.e(n.operand2)
                if n.operator == "/":
                    return "CSEM.div(%s, %s)" % (a, b)
                return "((%s) %s (%s))" % (a, n.operator, b)
            if hasattr(n, "operator") and hasattr(n, "operand"):
                return "(%s(%s))" % (n.operator, self.e(n.operand))
            raise Untranslatable("expression " + type(n).__name__)
        return m(n)

    def e_NameNode(self, n):
        return n.name

    def e_AttributeNode(self, n):
        if n.attribute == "data" and type(n.obj).__name__ == "NameNode" and self.types[-1].get(n.obj.name) is not None:
            return "CSEM.data(%s)" % self.e(n.obj)
        return "(%s).%s" % (self.e(n.obj), n.attribute) if type(n.obj).__name__ != "NameNode" else "%s.%s" % (self.e(n.obj), n.attribute)

    def e_IndexNode(self, n):
        return "%s[%s]" % (self.e(n.base), self.e(n.index))

    def e_SliceIndexNode(self, n):
        return "%s[%s:%s]" % (self.e(n.base), self.e(n.start) if n.start is not None else "", self.e(n.stop) if n.stop is not None else "")

    def e_SliceNode(self, n):
        f = lambda x: "None" if x is None else self.e(x)
        return "slice(%s, %s, %s)" % (f(n.start), f(n.stop), f(n.step))

    def e_SimpleCallNode(self, n):
        if type(n.function).__name__ == "NameNode" and n.function.name == "type" and len(n.args) == 1:
            return "CSEM.type(%s)" % self.e(n.args[0])
        return "%s(%s)" % (self.e(n.function), ", ".join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        if hasattr(pos, "args"):
            parts = [self.e(a) for a in pos.args]
        else:
            parts = ["*(%s)" % self.e(pos)]
        k = n.keyword_args
        if k is not None:
            if hasattr(k, "key_value_pairs"):
                parts += ["%s=%s" % (kv.key.value, self.e(kv.value)) for kv in k.key_value_pairs]
            else:
                parts.append("**(%s)" % self.e(k))
        return "%s(%s)" % (self.e(n.function), ", ".join(parts))

    def e_AsTupleNode(self, n):
        return "tuple(%s)" % self.e(n.arg)

    def e_MergedSequenceNode(self, n):
        return "(" + " + ".join("tuple(%s)" % self.e(a) for a in n.args) + ")"

    def e_MergedDictNode(self, n):
        return "{" + ", ".join("**(%s)" % self.e(a) for a in n.keyword_args) + "}"

    def e_StarredUnpackingNode(self, n):
        return "*(%s)" % self.e(n.target)

    def e_IntNode(self, n):
        return n.value

    def e_FloatNode(self, n):
        return n.value

    def e_BoolNode(self, n):
        return "True" if n.value else "False"

    def e_NoneNode(self, n):
        return "None"

    def e_EllipsisNode(self, n):
        return "..."

    def _str(self, n):
        return repr(str(n.value))

    e_UnicodeNode = e_StringNode = e_IdentifierStringNode = _str

    def e_BytesNode(self, n):
        return repr(bytes(n.value))

    def e_TupleNode(self, n):
        return "(" + "".join(self.e(a) + ", " for a in n.args) + ")"

    def e_ListNode(self, n):
        return "[" + ", ".join(self.e(a) for a in n.args) + "]"

    def e_SetNode(self, n):
        return "{" + ", ".join(self.e(a) for a in n.args) + "}"

    def e_DictNode(self, n):
        return "{" + ", ".join("%s: %s" % (self.e(kv.key), self.e(kv.value)) for kv in n.key_value_pairs) + "}"

    def e_BoolBinopNode(self, n):
        return "((%s) %s (%s))" % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def e_NotNode(self, n):
        return "(not (%s))" % self.e(n.operand)

    def e_CondExprNode(self, n):
        return "((%s) if (%s) else (%s))" % (self.e(n.true_val), self.e(n.test if hasattr(n, "test") else n.condition), self.e(n.false_val))

    def e_PrimaryCmpNode(self, n):
        t = "(%s) %s (%s)" % (self.e(n.operand1), self._op(n.operator), self.e(n.operand2))
        c = n.cascade
        while c is not None:
            t += " %s (%s)" % (self._op(c.operator), self.e(c.operand2))
            c = c.cascade
        return "(%s)" % t

    def _op(self, o):
        return {"not_in": "not in", "is_not": "is not", "<>": "!="}.get(o, o)

    def e_TypecastNode(self, n):
        t = self.tname(n.base_type)
        d = n.declarator
        while type(d).__name__ == "CPtrDeclaratorNode":
            t += "*"
            d = d.base
        return "CSEM.cast(%r, %s)" % (t, self.e(n.operand))

    def comp(self, loop):
        t = ""
        while True:
            k = type(loop).__name__
            if k == "ForInStatNode":
                t += " for %s in %s" % (self.e(loop.target), self.e(loop.iterator.sequence))
                loop = loop.body
            elif k == "IfStatNode":
                t += " if " + self.e(loop.if_clauses[0].condition)
                loop = loop.if_clauses[0].body
            elif k == "StatListNode" and len(loop.stats) == 1:
                loop = loop.stats[0]
            elif k == "ComprehensionAppendNode":
                return self.e(loop.expr) + t
            elif k == "DictComprehensionAppendNode":
                return "%s: %s%s" % (self.e(loop.dict_item.key), self.e(loop.dict_item.value), t)
            elif k == "ExprStatNode":
                loop = loop.expr
            elif k == "YieldExprNode":
                return self.e(loop.arg) + t
            else:
                raise Untranslatable("comprehension " + k)

    def e_ComprehensionNode(self, n):
        a, b = {"list": "[]", "set": "{}", "dict": "{}"}.get(getattr(n.type, "name", "list"), "[]")
        return a + self.comp(n.loop) + b

    def e_GeneratorExpressionNode(self, n):
        return "(" + self.comp(n.loop if n.loop is not None else n.def_node.body) + ")"

    def e_InlinedGeneratorExpressionNode(self, n):
        return self.e(n.gen)

    def e_LambdaNode(self, n):
        self.types.append({})
        try:
            sig, pre = self.args(n.args)
            return "(lambda %s: %s)" % (sig, self.e(n.result_expr))
        finally:
            self.types.pop()


def translate(path):
    from Cython.Compiler.TreeFragment import parse_from_strings
    import re

    src = open(path, encoding="utf-8").read()
    src = "\n".join(l if not re.match(r"\s*from\s+__future__\s", l) else "" for l in src.split("\n"))
    tree = parse_from_strings("module", src)
    return Translator().s(tree.body, 0)


_cache = {}


def load(path, name, package):
    """the module, interpreted"""
    if path in _cache:
        return _cache[path]
    code = translate(path)
    m = types.ModuleType(name)
    m.__package__ = package
    m.__file__ = path
    m.__dict__["CSEM"] = Runtime()
    exec(compile(code, path + " (translated)", "exec"), m.__dict__)
    m.__dict__["__source"] = code
    _cache[path] = m
    return m
