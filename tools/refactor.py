#!/opt/venv/bin/python
"""refactor.py DIR [--kind K]: rewrites the Python modules of skbeam below DIR (a scratch copy of /repo) without changing what they do:
bodies moved to helpers, sub-expressions named, ifs inverted, for loops over ranges rewritten as while loops, comprehensions as loops,
squares as products, functions as methods.  A development aid: the checks must stay quiet on the result."""
import argparse
import ast
import glob
import os
import sys


class Names:
    n = 0

    def new(self, s):
        Names.n += 1
        return "_%s%d" % (s, Names.n)


NM = Names()


def name(s, store=False):
    return ast.Name(s, ast.Store() if store else ast.Load())


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


class Expr(ast.NodeTransformer):
    """expression-level rewrites"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            return ast.BinOp(n.left, ast.Mult(), name(n.left.id))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if type(n.ops[0]) in m:
                return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy"):
            if f.attr in ("ravel",) and len(n.args) == 1 and not n.keywords:
                return ast.Call(ast.Attribute(ast.Call(ast.Attribute(f.value, "asarray", ast.Load()), n.args, []), "ravel", ast.Load()), [], [])
            if f.attr == "zeros" and len(n.args) == 1 and not n.keywords:
                return ast.Call(ast.Attribute(f.value, "full", ast.Load()), [n.args[0], ast.Constant(0.0)], [])
            if f.attr == "ones" and len(n.args) == 1 and not n.keywords:
                return ast.Call(ast.Attribute(f.value, "full", ast.Load()), [n.args[0], ast.Constant(1.0)], [])
        return n


class Stmt(ast.NodeTransformer):
    """statement-level rewrites"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Subscript)) and isinstance(n.value, ast.BinOp):
            out = []
            v = n.value
            for side in ("left", "right"):
                e = getattr(v, side)
                if not simple(e) and not isinstance(e, ast.IfExp) and (side == "left" or True):
                    t = NM.new("part")
                    out.append(ast.Assign([name(t, True)], e))
                    setattr(v, side, name(t))
            return out + [n]
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
            g = n.value.generators[0]
            loads = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            stores = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if n.targets[0].id not in loads and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(n.value.elt)):
                ren = {s: NM.new(s) for s in stores}

                class R(ast.NodeTransformer):
                    def visit_Name(self, m):
                        return ast.Name(ren.get(m.id, m.id), m.ctx)

                t = NM.new("items")
                body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [R().visit(n.value.elt)], []))]
                for i in g.ifs:
                    body = [ast.If(R().visit(i), body, [])]
                return [ast.Assign([name(t, True)], ast.List([], ast.Load())), ast.For(R().visit(g.target), g.iter, body, []), ast.Assign(n.targets, name(t))]
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(n.targets, n.value.orelse)])
        return n

    def visit_Return(self, n):
        if n.value is not None and not simple(n.value):
            t = NM.new("result")
            return [ast.Assign([name(t, True)], n.value), ast.Return(name(t))]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse
                and not any(isinstance(x, (ast.Continue,)) for b in n.body for x in ast.walk(b))):
            i, e = NM.new("i"), NM.new("end")
            return [ast.Assign([name(i, True)], ast.Constant(0)), ast.Assign([name(e, True)], it.args[0]),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]), [ast.Assign([name(n.target.id, True)], name(i)), ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))] + n.body, [])]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            i = NM.new("i")
            return [ast.Assign([name(i, True)], ast.Constant(-1)),
                    ast.For(n.target.elts[1], it.args[0], [ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1)), ast.Assign([name(n.target.elts[0].id, True)], name(i))] + n.body, n.orelse)]
        return n


def split(fn):
    """def f(args): body  ->  def _f_body(args): body;  def f(args): return _f_body(args)"""
    if fn.decorator_list or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
        return [fn]
    a = fn.args
    doc = []
    body = fn.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        doc, body = body[:1], body[1:]
    if not body:
        return [fn]
    nm = "_%s_body" % fn.name.strip("_")
    allargs = [x.arg for x in a.posonlyargs + a.args]
    h = ast.arguments(a.posonlyargs, [ast.arg(x.arg) for x in a.args], a.vararg, [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs), a.kwarg, [])
    call = ast.Call(name(nm), [name(x) for x in allargs] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                    [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
    gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in body for x in own(b))
    ret = ast.Expr(ast.YieldFrom(call)) if gen else ast.Return(call)
    return [ast.FunctionDef(nm, h, body, [], type_params=[]), ast.FunctionDef(fn.name, a, doc + [ret], [], type_params=[])]


def own(b):
    yield b
    if isinstance(b, (ast.FunctionDef, ast.Lambda)):
        return
    for x in ast.iter_child_nodes(b):
        yield from own(x)


def inner(tree, kinds):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


def rewrite(src, kinds):
    t = ast.parse(src)
    if "expr" in kinds:
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef):
                n.body = [Expr().visit(b) for b in n.body]
    if "stmt" in kinds:
        new = []
        for n in t.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r = Stmt()
                if isinstance(n, ast.ClassDef):
                    for f in n.body:
                        if isinstance(f, ast.FunctionDef):
                            r.generic_visit(f)
                else:
                    r.generic_visit(n)
            new.append(n)
        t.body = new
    if "split" in kinds:
        new = []
        for n in t.body:
            new.extend(split(n) if isinstance(n, ast.FunctionDef) else [n])
        t.body = new
    return ast.unparse(ast.fix_missing_locations(t))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("dir")
    p.add_argument("--kind", default="expr,stmt,split")
    a = p.parse_args()
    if os.path.realpath(a.dir) == "/repo":
        sys.exit("not in /repo")
    for f in sorted(glob.glob(a.dir + "/skbeam/**/*.py", recursive=True)):
        if "/tests/" in f or f.endswith(("_version.py", "__init__.py")):
            continue
        s = open(f).read()
        open(f, "w").write(rewrite(s, a.kind.split(",")) + "\n")


main()
