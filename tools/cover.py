#!/usr/bin/env python3
"""statements of the repository no check reaches: cover.py (after SA_COVER=FILE runs) FILE"""
import ast, os, sys
PK = "moving_mesh_transport/"
seen = {}
for l in open(sys.argv[1]):
    f, n = l.strip().rsplit(":", 1)
    f = f[f.index(PK):] if PK in f else f
    seen.setdefault(f, set()).add(int(n))
for d, _, fs in sorted(os.walk("/repo/moving_mesh_transport")):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.relpath(os.path.join(d, f), "/repo")
        s = seen.get(p, set())
        try:
            tree = ast.parse(open(os.path.join(d, f)).read())
        except SyntaxError:
            print(p, "does not parse")
            continue
        for fn in ast.walk(tree):
            if isinstance(fn, ast.FunctionDef):
                lines = {n.lineno for n in ast.walk(fn) if isinstance(n, ast.stmt) and n is not fn and not isinstance(n, (ast.FunctionDef, ast.Pass)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))}
                miss = sorted(lines - s)
                if miss:
                    print(p[len(PK):], fn.name, "%d/%d" % (len(miss), len(lines)), ("all" if len(miss) == len(lines) else miss[:25]))
