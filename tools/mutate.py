#!/opt/venv/bin/python
"""mutate.py FILE[:FUNC,FUNC] [--n K] [--seed S] [--workers W]: plants small mechanical changes in scratch copies of /repo and reports those
that the checks listing the function do not notice (with what the module's tests say).  A development aid, no check uses it."""
import argparse
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def mutants(src, fn):
    """(line, description, new source) of every small change in fn"""
    lines = src.split("\n")
    off = [0]
    for t in lines:
        off.append(off[-1] + len(t.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    out = []

    def sub(i, j, new, what, line):
        s = (b[:i] + new.encode() + b[j:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((line, what, s))

    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("warn", "debug", "info", "warning", "format"):
            skip |= {id(x) for x in ast.walk(n)}
    CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}
    BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Pow: ("**", "*")}
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o, w = CMP[type(n.ops[0])]
            i, j = pos(n.left, True), pos(n.comparators[0])
            t = b[i:j].decode()
            if o in t:
                sub(i, j, t.replace(o, w, 1), "%s -> %s" % (o, w), n.lineno)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            o, w = BIN[type(n.op)]
            i, j = pos(n.left, True), pos(n.right)
            t = b[i:j].decode()
            if o in t:
                sub(i, j, t.replace(o, w, 1), "%s -> %s" % (o, w), n.lineno)
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                sub(pos(n), pos(n, True), repr(not v), "%r -> %r" % (v, not v), n.lineno)
            elif type(v) is int:
                sub(pos(n), pos(n, True), repr(v + 1), "%r -> %r" % (v, v + 1), n.lineno)
            elif type(v) is float:
                sub(pos(n), pos(n, True), repr(v * 1.5 + (v == 0)), "%r changed" % v, n.lineno)
        if isinstance(n, ast.BoolOp):
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            i, j = pos(n.values[0], True), pos(n.values[1])
            t = b[i:j].decode()
            if o in t:
                sub(i, j, t.replace(o, w, 1), "%s -> %s" % (o, w), n.lineno)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(pos(n), pos(n.operand), "", "not removed", n.lineno)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            sub(pos(n), pos(n.operand), "", "minus removed", n.lineno)
        if isinstance(n, ast.AugAssign) or (isinstance(n, ast.Assign) and not all(isinstance(t, ast.Name) for t in n.targets)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            sub(pos(n), pos(n, True), "pass", "deleted: " + b[pos(n):pos(n, True)].decode()[:50].replace("\n", " "), n.lineno)
        if isinstance(n, (ast.If, ast.While)):
            sub(pos(n.test), pos(n.test, True), "False", "if False", n.lineno)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a0, a1 = n.args[:2]
            if isinstance(a0, ast.Name) and isinstance(a1, ast.Name):
                sub(pos(a0), pos(a1, True), b[pos(a1):pos(a1, True)].decode() + b[pos(a0, True):pos(a1)].decode() + b[pos(a0):pos(a0, True)].decode(), "arguments swapped", n.lineno)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and n.value.args and isinstance(n.value.args[0], ast.Name) and len(n.value.args) == 1:
            sub(pos(n.value), pos(n.value, True), n.value.args[0].id, "call removed: " + b[pos(n.value):pos(n.value, True)].decode()[:40], n.lineno)
    return out


def props_of(func, path):
    r = []
    for p in sorted(glob.glob(HERE + "/props/C*.py")):
        if re.search(r"functions=.*[.\"']%s[\"']" % re.escape(func), open(p).read()) or re.search(r"\.%s[\"']" % re.escape(func), open(p).read()):
            r.append(os.path.basename(p)[:-3])
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", nargs="+")
    ap.add_argument("--n", type=int, default=6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--jobs", default="2")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    todo = []
    files = {}
    for t in open(HERE + "/properties.jsonl"):
        q = json.loads(t)
        for x in q["anchors"]["files"]:
            files.setdefault(x, []).append(q["id"])
    for w in a.what:
        path, _, fs = w.partition(":")
        src = open("/repo/" + path).read()
        tree = ast.parse(src)
        cls = {id(f): n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef) for f in n.body}
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and (not fs or n.name in fs.split(",")):
                name, whole = n.name, False
                ps = [] if n.name.startswith("__") else props_of(n.name, path)
                if not ps and id(n) in cls:
                    whole = True
                    ps = [q for q in files.get(path, []) if re.search(r"\b%s\b" % cls[id(n)], open(HERE + "/props/%s.py" % q).read())]
                if not ps:
                    whole = True
                    ps = files.get(path, [])
                if not ps:
                    continue
                ms = mutants(src, n)
                rnd.shuffle(ms)
                for m in ms[: a.n]:
                    todo.append((path, None if whole else n.name, ps, m))
    print(len(todo), "mutants", flush=True)
    free = Queue()
    for k in range(a.workers):
        d = "/tmp/mutwt%d" % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
        free.put(d)

    def one(t):
        path, fn, ps, (line, what, new) = t
        d = free.get()
        f = d + "/" + path
        old = open(f).read()
        try:
            open(f, "w").write(new)
            res = []
            for p in ps:
                try:
                    r = subprocess.run([HERE + "/run.py", p, "--jobs", a.jobs] + (["--func", fn] if fn else []), cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_STOP_S="0"), capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res.append("timeout")
                    continue
                if "VIOLATION" in r.stdout:
                    return
                res.append("%s:rc%d %s" % (p, r.returncode, r.stdout.strip().split("\n")[-1][-75:]))
            base = os.path.splitext(os.path.basename(path))[0]
            ts = glob.glob(d + "/" + os.path.dirname(path) + "/tests/test_%s*.py" % base.lstrip("_")) or [d + "/" + os.path.dirname(path) + "/tests"]
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"] + ts, cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
            code = new.split("\n")[line - 1].strip()
            print("%s:%d %s [%s] tests=%s\n      %s\n      %s" % (path, line, fn, what, "pass" if r.returncode == 0 else "FAIL", code[:140], "; ".join(res)), flush=True)
        finally:
            open(f, "w").write(old)
            free.put(d)

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, todo))
    for k in range(a.workers):
        shutil.rmtree("/tmp/mutwt%d" % k, ignore_errors=True)
    print("done", flush=True)


main()
