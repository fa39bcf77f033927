#!/usr/bin/env python3
"""Behaviour-preserving rewrites of a copy of the repository, to see that the checks stay quiet on them.
usage: refactor.py OUTDIR SEED TRANSFORM[,TRANSFORM...] [file ...]"""
import ast
import os
import random
import shutil
import subprocess
import sys

SRC = "/repo"
PK = "moving_mesh_transport/"
FILES = [PK + f for f in """solver.py solver_classes/build_problem.py solver_classes/functions.py solver_classes/make_phi.py solver_classes/matrices.py solver_classes/mesh.py
solver_classes/mesh_functions.py solver_classes/numerical_flux.py solver_classes/opacity.py solver_classes/phi_class.py solver_classes/radiative_transfer.py solver_classes/rhs_class_1.py
solver_classes/sources.py solver_classes/uncollided_solutions.py solver_classes/GMAT_sphere.py solver_functions/main_functions.py solver_functions/run_functions.py
loading_and_saving/load_parameters.py loading_and_saving/load_solution.py loading_and_saving/save_output.py loading_and_saving/load_bench.py""".split()]


def is_str(e):
    return any(isinstance(n, ast.Constant) and isinstance(n.value, str) or isinstance(n, ast.JoinedStr) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "str"
               or isinstance(n, (ast.List, ast.Tuple)) for n in ast.walk(e))


def locals_of(fn):
    a = fn.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    st, glob, inner = set(), set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            st.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            inner |= {x.arg for x in n.args.args}
            if isinstance(n, ast.FunctionDef):
                inner.add(n.name)
    return params, st - params - glob - inner


class Base(ast.NodeTransformer):
    def __init__(self, rnd, p):
        self.r, self.p, self.n = rnd, p, 0

    def hit(self):
        if self.r.random() < self.p:
            self.n += 1
            return True
        return False


class Rename(Base):
    def visit_FunctionDef(self, fn):
        _, loc = locals_of(fn)
        m = {v: "%s_%d" % (v, self.r.randrange(100)) for v in sorted(loc) if self.hit()}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
        return fn


class NegateIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.hit():
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Flip(Base):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and self.hit():
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Commute(Base):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Add, ast.Mult)) and not is_str(n) and self.hit():
            n.left, n.right = n.right, n.left
        return n


class Expand(Base):
    """x[i] += e"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript) and self.hit():
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            return ast.Assign([n.target], ast.BinOp(load, n.op, n.value))
        return n


class Contract(Base):
    """x[i] = x[i] + e"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub, ast.Mult)) \
                and ast.unparse(n.value.left) == ast.unparse(n.targets[0]) and self.hit():
            return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
        return n


class Square(Base):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and self.hit():
            return ast.BinOp(n.left, ast.Mult(), ast.parse(ast.unparse(n.left), mode="eval").body)
        return n


def each_block(tree, f):
    for n in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, field, f(n, b))


class Temps(Base):
    """value of a return or of an assignment into a temporary; arguments of calls into temporaries"""
    def run(self, tree):
        k = [0]

        def f(owner, body):
            if isinstance(owner, (ast.Module, ast.ClassDef)):
                return body
            out = []
            for s in body:
                if isinstance(s, ast.Return) and s.value is not None and self.hit():
                    k[0] += 1
                    nm = "result_%d" % k[0]
                    out += [ast.Assign([ast.Name(nm, ast.Store())], s.value), ast.Return(ast.Name(nm, ast.Load()))]
                    continue
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and not isinstance(s.value.left, ast.Constant) and self.hit():
                    k[0] += 1
                    nm = "part_%d" % k[0]
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], s.value.left))
                    s.value.left = ast.Name(nm, ast.Load())
                if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args and not any(isinstance(a, ast.Starred) for a in s.value.args) and not isinstance(s.value.func, ast.Call) and self.hit():
                    for i, a in enumerate(s.value.args):
                        if not isinstance(a, (ast.Name, ast.Constant)):
                            k[0] += 1
                            nm = "arg_%d" % k[0]
                            out.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                            s.value.args[i] = ast.Name(nm, ast.Load())
                out.append(s)
            return out
        each_block(tree, f)


class While(Base):
    """for i in range(n) as a while loop"""
    def run(self, tree):
        def f(owner, body):
            if isinstance(owner, (ast.Module, ast.ClassDef)):
                return body
            out = []
            for s in body:
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
                        and len(s.iter.args) <= 2 and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(s)) \
                        and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == s.target.id for b in s.body for x in ast.walk(b)) and self.hit():
                    lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                    hi = s.iter.args[-1]
                    nm, st = s.target.id, "stop_%d" % self.n
                    out += [ast.Assign([ast.Name(nm, ast.Store())], lo), ast.Assign([ast.Name(st, ast.Store())], hi),
                            ast.While(ast.Compare(ast.Name(nm, ast.Load()), [ast.Lt()], [ast.Name(st, ast.Load())]),
                                      s.body + [ast.AugAssign(ast.Name(nm, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                    continue
                out.append(s)
            return out
        each_block(tree, f)


class Noop(Base):
    def run(self, tree):
        def f(owner, body):
            if isinstance(owner, (ast.Module, ast.ClassDef)):
                return body
            out = []
            for s in body:
                if self.hit() and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append(ast.parse("unused_value = 0").body[0] if self.r.random() < .5 else ast.Pass())
                out.append(s)
            return out
        each_block(tree, f)


class Swap(Base):
    """adjacent assignments self.a = a; self.b = b"""
    def run(self, tree):
        def simple(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Attribute, ast.Name)) and not any(isinstance(x, ast.Call) for x in ast.walk(s.value))

        def f(owner, body):
            if isinstance(owner, (ast.Module, ast.ClassDef)):
                return body
            i = 0
            while i + 1 < len(body):
                a, b = body[i], body[i + 1]
                if simple(a) and simple(b):
                    ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
                    if ta != tb and ta not in ast.unparse(b.value) and tb not in ast.unparse(a.value) and self.hit():
                        body[i], body[i + 1] = b, a
                        i += 1
                i += 1
            return body
        each_block(tree, f)


class Extract(Base):
    """a run of statements of a method becomes a helper method (returning what it assigns)"""
    def run(self, tree):
        for cl in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
            new = []
            for fn in [x for x in cl.body if isinstance(x, ast.FunctionDef)]:
                if not fn.args.args or fn.args.args[0].arg != "self" or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn for x in ast.walk(fn)):
                    continue
                self.method(fn, new, True)
            cl.body += new
        new = []
        for fn in [x for x in tree.body if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn for x in ast.walk(fn)):
                continue
            # helpers need the decorators of their origin: njit functions call njit functions
            self.method(fn, new, False)
        tree.body += new

    def method(self, fn, new, meth):
        params, loc = locals_of(fn)
        allv = (params | loc) - {"self"}
        body = fn.body
        n = len(body)
        if n < 2:
            return
        for _ in range(4):
            i = self.r.randrange(0, n)
            j = min(n, i + 1 + self.r.randrange(0, 4))
            blk = body[i:j]
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Global, ast.Yield)) for b in blk for x in ast.walk(b)):
                continue
            if any(isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) for b in blk):
                continue
            stored = {x.id for b in blk for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            sure = {t.id for b in blk if isinstance(b, ast.Assign) for t in b.targets if isinstance(t, ast.Name)} | \
                   {x.id for b in blk if isinstance(b, ast.Assign) for t in b.targets if isinstance(t, ast.Tuple) for x in t.elts if isinstance(x, ast.Name)}
            used_after = {x.id for b in body[j:] for x in ast.walk(b) if isinstance(x, ast.Name)}
            outs = sorted(stored & used_after)
            before = params | {t.id for b in body[:i] if isinstance(b, ast.Assign) for t in b.targets if isinstance(t, ast.Name)}
            ins = sorted({x.id for b in blk for x in ast.walk(b) if isinstance(x, ast.Name) and x.id in allv} & (before - {"self"}))
            loads = {x.id for b in blk for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in allv}
            if not set(outs) <= sure | set(ins):
                continue
            if not loads <= set(ins) | stored:
                continue
            if not self.hit():
                continue
            nm = "_step_%d_%s" % (len(new), fn.name.strip("_"))
            args = (["self"] if meth else []) + ins
            h = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                body=list(blk) + ([ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load()))] if outs else []),
                                decorator_list=[] if meth else [d for d in fn.decorator_list if not isinstance(d, ast.Call)])
            f = ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()) if meth else ast.Name(nm, ast.Load())
            call = ast.Call(f, [ast.Name(a, ast.Load()) for a in ins], [])
            if outs:
                t = ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
                st = ast.Assign([t], call)
            else:
                st = ast.Expr(call)
            new.append(h)
            fn.body[i:j] = [st]
            return


class Early(Base):
    """if c: A (function's last statement) else: B  ->  if c: A; return / B ;  nested elif -> guarded returns"""
    def run(self, tree):
        for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
            s = fn.body[-1]
            if isinstance(s, ast.If) and s.orelse and not any(isinstance(x, ast.Return) for x in ast.walk(fn)) and fn.name != "__init__" and self.hit():
                out = fn.body[:-1]
                while isinstance(s, ast.If) and s.orelse:
                    out.append(ast.If(s.test, s.body + [ast.Return(None)], []))
                    if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                        s = s.orelse[0]
                        if not s.orelse:
                            out.append(s)
                    else:
                        out += s.orelse
                        break
                fn.body = out


class Keywords(Base):
    """positional constructor arguments of the repository's classes by keyword"""
    def run(self, tree):
        sig = signatures()
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sig and not n.keywords and len(n.args) <= len(sig[n.func.id]) \
                    and not any(isinstance(a, ast.Starred) for a in n.args) and self.hit():
                n.keywords = [ast.keyword(k, a) for k, a in zip(sig[n.func.id], n.args)]
                n.args = []


_sig = {}


def signatures():
    if not _sig:
        bad = set()
        for f in FILES:
            for n in ast.walk(ast.parse(open(os.path.join(SRC, f)).read())):
                if isinstance(n, ast.ClassDef):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef) and m.name == "__init__":
                            names = [a.arg for a in m.args.args[1:]]
                            if n.name in _sig and _sig[n.name] != names:
                                bad.add(n.name)
                            _sig[n.name] = names
        for b in bad:
            del _sig[b]
    return _sig


ALL = dict(rename=Rename, negate=NegateIf, flip=Flip, commute=Commute, expand=Expand, contract=Contract, square=Square, temps=Temps, whiles=While, noop=Noop, swap=Swap,
           extract=Extract, early=Early, keywords=Keywords)


def main():
    out, seed, tr = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(",")
    files = sys.argv[4:] or FILES
    if tr == ["all"]:
        tr = list(ALL)
    p = float(os.environ.get("RP", "0.5"))
    rnd = random.Random(seed)
    if not os.path.exists(out):
        shutil.copytree(SRC, out, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.pdf", "*.png", "*.hdf5", "*.h5"))
    tot = {}
    for f in files:
        tree = ast.parse(open(os.path.join(SRC, f)).read())
        for t in tr:
            o = ALL[t](rnd, p)
            if hasattr(o, "run"):
                o.run(tree)
            else:
                tree = o.visit(tree)
            tot[t] = tot.get(t, 0) + o.n
        ast.fix_missing_locations(tree)
        s = ast.unparse(tree)
        ast.parse(s)
        open(os.path.join(out, f), "w").write(s + "\n")
    print(tot)


main()
