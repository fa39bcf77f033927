#!/usr/bin/env python3
"""Sensitivity of the checks: random single-point changes of the source, each analysed by the checks until one reports it.
usage: mutate.py SEED COUNT [file substring ...]     prints survivors"""
import ast
import copy
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo"
PK = "moving_mesh_transport/"
FILES = [PK + f for f in """solver.py solver_classes/build_problem.py solver_classes/functions.py solver_classes/make_phi.py solver_classes/matrices.py solver_classes/mesh.py
solver_classes/mesh_functions.py solver_classes/numerical_flux.py solver_classes/opacity.py solver_classes/phi_class.py solver_classes/rhs_class_1.py
solver_classes/sources.py solver_classes/uncollided_solutions.py solver_classes/GMAT_sphere.py solver_functions/main_functions.py solver_functions/run_functions.py
loading_and_saving/load_parameters.py loading_and_saving/load_solution.py loading_and_saving/save_output.py loading_and_saving/load_bench.py""".split()]
SLOW = ["P24", "P17", "P15", "P21", "P25"]


def sites(tree):
    """(description, apply) list; apply mutates the tree"""
    out = []

    def stmts(body, owner):
        for i, s in enumerate(body):
            if isinstance(s, (ast.Assign, ast.AugAssign)) and not isinstance(owner, (ast.Module, ast.ClassDef)):
                if isinstance(s, ast.AugAssign) or isinstance(s.targets[0], (ast.Subscript, ast.Attribute)):
                    out.append((s, "drop", (lambda body=body, i=i: body.__setitem__(i, ast.Pass()))))
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) not in ("print", "plt.plot", "plt.figure", "plt.show", "plt.legend", "plt.xlabel", "plt.ylabel"):
                out.append((s, "drop call", (lambda body=body, i=i: body.__setitem__(i, ast.Pass()))))

    for n in ast.walk(tree):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                stmts(b, n)
        if isinstance(n, ast.BinOp):
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in swap:
                out.append((n, "op", (lambda n=n: setattr(n, "op", swap[type(n.op)]()))))
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((n, "augop", (lambda n=n: setattr(n, "op", ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()))))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((n, "neg", (lambda n=n: setattr(n, "op", ast.UAdd()))))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            neg = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
            if type(n.ops[0]) in neg:
                out.append((n, "negate", (lambda n=n: n.ops.__setitem__(0, neg[type(n.ops[0])]()))))
        if isinstance(n, ast.BoolOp):
            out.append((n, "and/or", (lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))))
            if len(n.values) > 1:
                out.append((n, "drop operand", (lambda n=n: n.values.pop())))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((n, "const", (lambda n=n: setattr(n, "value", n.value + 1 if isinstance(n.value, int) else n.value * 1.5))))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, "bool", (lambda n=n: setattr(n, "value", not n.value))))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred) and ast.unparse(n.args[0]) != ast.unparse(n.args[1]):
            out.append((n, "swap args", (lambda n=n: n.args.__setitem__(slice(0, 2), n.args[1::-1]))))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name):
            out.append((n, "index+1", (lambda n=n: setattr(n, "slice", ast.BinOp(n.slice, ast.Add(), ast.Constant(1))))))
            out.append((n, "index-1", (lambda n=n: setattr(n, "slice", ast.BinOp(n.slice, ast.Sub(), ast.Constant(1))))))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and not any(isinstance(e, ast.Slice) for e in n.slice.elts):
            out.append((n, "transpose", (lambda n=n: n.slice.elts.reverse())))
        if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.elts[0], ast.Constant) and ast.unparse(n.elts[1]) == "float64":
            out.append((n, "retype", (lambda n=n: n.elts.__setitem__(1, ast.Name("int64", ast.Load())))))
    return out


def bad_print(tree):
    """nodes under print/plot calls and docstrings"""
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and (ast.unparse(n.func) == "print" or ast.unparse(n.func).startswith("plt.")):
            for x in ast.walk(n):
                s.add(id(x))
    return s


def func_of(tree, node):
    best = "<module>"
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and any(x is node for x in ast.walk(n)):
            best = n.name
    return best


def reachable_names():
    """functions the run entry points can reach by name (over-approximation)"""
    defs = {}
    for f in FILES:
        for n in ast.walk(ast.parse(open(os.path.join(SRC, f)).read())):
            if isinstance(n, ast.FunctionDef):
                defs.setdefault(n.name, []).append(n)
    return defs


def order(f):
    pr = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    have = {re.match(r"p(\d+)", os.path.basename(c)).group(0).upper() for c in glob.glob(os.path.join(HERE, "checks", "p*_*.py"))}
    a = [p["id"] for p in pr if f in p["anchors"]["files"] and p["id"] in have]
    rest = [p["id"] for p in pr if p["id"] in have and p["id"] not in a]
    key = lambda x: (x in SLOW, x)
    return sorted(a, key=key) + sorted(rest, key=key)


def work(job):
    k, f, desc, text, tree_dir = job
    t = "/tmp/mut/%d" % k
    shutil.copytree("/tmp/mut/base", t, symlinks=True)
    try:
        open(os.path.join(t, f), "w").write(text)
        log = []
        for p in order(f):
            env = dict(os.environ, SA_REPO=t, SA_EVIDENCE="/tmp/mut/ev%d" % k)
            try:
                r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), p], env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                log.append(p + ":timeout")
                continue
            if r.returncode == 1:
                return (desc, p, log)
            if "UNDECIDED" in r.stdout or r.returncode != 0:
                log.append(p + ":undecided")
        return (desc, None, log)
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree("/tmp/mut/ev%d" % k, ignore_errors=True)


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    subs = sys.argv[3:]
    rnd = random.Random(seed)
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    shutil.copytree(SRC, "/tmp/mut/base", ignore=shutil.ignore_patterns(".git", "__pycache__", "*.pdf", "*.png", "*.hdf5", "*.h5"))
    jobs = []
    allsites = []
    for f in FILES:
        if subs and not any(s in f for s in subs):
            continue
        src = open(os.path.join(SRC, f)).read()
        tree = ast.parse(src)
        bp = bad_print(tree)
        ss = sites(tree)
        for i, (n, d, _) in enumerate(ss):
            if id(n) in bp or os.environ.get("KIND", d) != d:
                continue
            allsites.append((f, i, d))
    print(len(allsites), "sites", flush=True)
    pick = rnd.sample(allsites, min(count, len(allsites)))
    for k, (f, i, d) in enumerate(pick):
        tree = ast.parse(open(os.path.join(SRC, f)).read())
        n, d, ap = sites(tree)[i]
        line = getattr(n, "lineno", 0)
        fn = func_of(tree, n)
        old = ast.unparse(n)[:80]
        ap()
        ast.fix_missing_locations(tree)
        try:
            text = ast.unparse(tree)
        except Exception:
            continue
        desc = "%s:%d %s() [%s] %s" % (f[len(PK):], line, fn, d, old.replace("\n", " "))
        jobs.append((k, f, desc, text, None))
    caught = {}
    surv = 0
    with ThreadPoolExecutor(int(os.environ.get("W", "8"))) as ex:
        for desc, p, log in ex.map(work, jobs):
            if p:
                caught[p] = caught.get(p, 0) + 1
            else:
                surv += 1
                print("SURVIVED", desc, " ".join(log), flush=True)
    print("caught", sum(caught.values()), "survived", surv, caught)


main()
