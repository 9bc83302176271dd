"""public functions of the package that no check lists among its encoded functions"""
import ast, glob, re, os
props = "".join(open(p).read() for p in glob.glob("/verif/props/C*.py"))
for p in sorted(glob.glob("/repo/skbeam/**/*.py", recursive=True)):
    if "/tests/" in p or "_version" in p:
        continue
    names = []
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.FunctionDef) and not re.search(r"\b%s\b" % re.escape(n.name), props):
            names.append("%s(%d)" % (n.name, (n.end_lineno or 0) - n.lineno))
    if names:
        print(os.path.relpath(p, "/repo/skbeam"), ":", ", ".join(names))
