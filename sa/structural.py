"""Name, field and call resolution over the modules a run can reach.

Everything is read off the syntax tree: lexical scopes, imports, class fields, a reachability relation by name, and a
flow-insensitive inference of the repository class (or tuple of them) each variable, parameter and field can hold.
A reference is reported only when no definition whatsoever can provide it; a value of unknown origin is never judged."""
import ast
import builtins
from .repo import loc

BUILTIN_NAMES = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__"}
UNKNOWN = "?"


class Fn:
    """a function, method, lambda body or module body"""
    def __init__(self, node, mod, cls, parent, name):
        self.node, self.mod, self.cls, self.parent, self.name = node, mod, cls, parent, name
        self.static = any(isinstance(d, ast.Name) and d.id in ("staticmethod",) for d in getattr(node, "decorator_list", ()))
        self.clsm = any(isinstance(d, ast.Name) and d.id in ("classmethod",) for d in getattr(node, "decorator_list", ()))
        self.prop = any(isinstance(d, ast.Name) and d.id in ("property",) for d in getattr(node, "decorator_list", ()))
        self.locals = {}       # name -> types
        self.rets = set()

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls is not None else "") + self.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods, self.attrs, self.spec = {}, set(), None
        self.fields = {}       # name -> types
        self.stored = {}       # field -> first node
        self.bases = [b for b in node.bases if ast.unparse(b) != "object"]
        self.jit = False

    def __repr__(self):
        return self.name


def own_nodes(node):
    """nodes of a function body without nested functions and classes"""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.ClassDef):
                st.extend(n.args.defaults + [d for d in n.args.kw_defaults if d is not None])
            st.extend(getattr(n, "decorator_list", []))
            continue
        st.extend(ast.iter_child_nodes(n))


def bound_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(s, n):
            out.add(n.name)

        def visit_ClassDef(s, n):
            out.add(n.name)

        def visit_Lambda(s, n):
            pass

        def visit_Name(s, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Import(s, n):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(s, n):
            if n.name:
                out.add(n.name)
            s.generic_visit(n)

        def visit_Global(s, n):
            out.update(n.names)
        visit_Nonlocal = visit_Global

        def visit_NamedExpr(s, n):
            out.add(n.target.id)
            s.generic_visit(n)

        def visit_ListComp(s, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for b in body:
        V().visit(b)
    return out


class Model:
    def __init__(self, repo, roots, root_classes):
        self.repo = repo
        self.mods = self.closure(roots)
        self.cls, self.fns = {}, []          # (module, name) -> Cls ; list of Fn
        self.byname = {}                     # function name -> [Fn]
        self.mfn, self.body = {}, {}         # (module, name) -> Fn ; module -> Fn
        self.node_fn, self.globs, self.own = {}, {}, {}
        for mn in self.mods:
            self.scan(repo.modules[mn])
        self.star = {mn: self.star_names(mn) for mn in self.mods}
        self.reach(root_classes)
        for c in self.cls.values():
            for f in c.methods.values():        # a field counts as assigned wherever its class assigns it
                me = (f.params() or [None])[0]
                for n in self.nodes(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        c.stored.setdefault(n.attr, n)
        self.liveset = set(self.live)
        self.infer()

    # ---------------------------------------------------------------- modules
    def imports_of(self, mn):
        """repository modules a module imports, anywhere in it"""
        m = self.repo.modules[mn]
        out = []
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                b = m.resolve_from(s)
                for c in [b] + [b + "." + a.name for a in s.names]:
                    x = self.repo.modules.get(c)
                    if x is not None:
                        out.append(x.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    x = self.repo.modules.get(a.name)
                    if x is not None:
                        out.append(x.name)
        # the packages a module lies in are imported first
        p = mn.split(".")
        for k in range(1, len(p)):
            if ".".join(p[:k]) in self.repo.modules:
                out.append(".".join(p[:k]))
        return out

    def nodes(self, f):
        r = self.own.get(f)
        if r is None:
            r = self.own[f] = list(own_nodes(f.node))
        return r

    def closure(self, roots):
        seen, st = [], list(roots)
        while st:
            m = st.pop()
            if m in seen or m not in self.repo.modules:
                continue
            seen.append(m)
            st += self.imports_of(m)
        return seen

    def star_names(self, mn):
        """(names, complete) brought in by star imports"""
        m = self.repo.modules[mn]
        out, full = set(), True
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names):
                x = self.repo.modules.get(m.resolve_from(s))
                if x is None:
                    full = False
                else:
                    out |= bound_names(x.tree.body)
        return out, full

    # ---------------------------------------------------------------- definitions
    def scan(self, m):
        self.body[m.name] = b = Fn(m.tree, m, None, None, "<module>")
        self.fns.append(b)
        self.node_fn[m.tree] = b

        def visit(node, cls, parent):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    own = cls if isinstance(node, ast.ClassDef) else None
                    f = Fn(n, m, own, parent, getattr(n, "name", "<lambda>"))
                    self.fns.append(f)
                    self.node_fn[n] = f
                    self.byname.setdefault(f.name, []).append(f)
                    if own is not None:
                        own.methods[f.name] = f
                    elif parent is b:
                        self.mfn[(m.name, f.name)] = f
                    visit(n, None, f)
                elif isinstance(n, ast.ClassDef):
                    c = Cls(n, m)
                    self.cls[(m.name, n.name)] = c
                    self.class_spec(c)
                    visit(n, c, parent)
                else:
                    visit(n, cls if isinstance(node, ast.ClassDef) else None, parent)
        visit(m.tree, None, b)

    def class_spec(self, c):
        for s in c.node.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            c.attrs.add(x.id)
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "jitclass":
                c.jit = True
                spec = d.args[0] if d.args else next((k.value for k in d.keywords if k.arg == "spec"), None)
                c.spec = self.entries(c.mod, spec, c.node.lineno)

    def entries(self, m, e, line):
        """declared fields: name -> type expression, or None when they cannot be read off"""
        if isinstance(e, ast.Name):
            out = None
            for st in m.tree.body:
                if st.lineno >= line:
                    break
                new = None
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in st.targets):
                    out = self.entries(m, st.value, st.lineno)
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == e.id:
                    new = self.entries(m, st.value, st.lineno)
                    out = None if new is None or out is None else {**out, **new}
                elif any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(st)) and not isinstance(st, (ast.ClassDef, ast.FunctionDef)):
                    # anything else that mentions the list may add to it
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and \
                            isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == e.id and len(st.value.args) == 1 and \
                            st.value.func.attr in ("append", "extend", "update"):
                        a = st.value.args[0]
                        new = self.entries(m, ast.List([a], ast.Load()) if st.value.func.attr == "append" else a, st.lineno)
                        out = None if new is None or out is None else {**out, **new}
                    elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and isinstance(st.targets[0].slice, ast.Constant) and out is not None:
                        out = {**out, st.targets[0].slice.value: st.value}
                    else:
                        continue
            return out
        if isinstance(e, (ast.List, ast.Tuple)):
            if all(isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == 2 and isinstance(x.elts[0], ast.Constant) for x in e.elts):
                return {x.elts[0].value: x.elts[1] for x in e.elts}
            return None
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return {k.value: v for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.BinOp):
            l, r = self.entries(m, e.left, line), self.entries(m, e.right, line)
            return None if l is None or r is None else {**l, **r}
        if isinstance(e, ast.Call) and len(e.args) == 1:
            return self.entries(m, e.args[0], line)
        return None

    # ---------------------------------------------------------------- reachability by name
    def reach(self, root_classes):
        live, work = set(), []

        def add(f):
            if f not in live:
                live.add(f)
                work.append(f)
        for b in self.body.values():
            add(b)
        for (mn, cn), c in self.cls.items():
            for f in c.methods.values():
                if cn in root_classes or (f.name.startswith("__") and f.name.endswith("__")):
                    add(f)
        while work:
            f = work.pop()
            for n in self.nodes(f):
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        for g in self.byname.get(a.name, ()):
                            if f is not self.body[f.mod.name]:
                                add(g)
                if isinstance(n, (ast.Lambda,)):
                    add(self.node_fn[n])
                if nm is not None:
                    for g in self.byname.get(nm, ()):
                        add(g)
                    for c in self.cls.values():
                        if c.name == nm and "__init__" in c.methods:
                            add(c.methods["__init__"])
        self.live = [f for f in self.fns if f in live]

    # ---------------------------------------------------------------- inference of repository classes
    def resolve(self, mn, name, depth=0):
        """what a module-level name denotes: Cls, Fn, ('mod', name), or None"""
        if depth > 8 or mn not in self.repo.modules:
            return None
        if (mn, name) in self.cls:
            return self.cls[(mn, name)]
        if (mn, name) in self.mfn:
            return self.mfn[(mn, name)]
        m = self.repo.modules[mn]
        i = m.imports.get(name)
        if i is not None:
            if name in m.assigns:
                return None
            if i[0] == "mod":
                return ("mod", i[1]) if i[1] in self.repo.modules else None
            if i[1] in self.repo.modules:
                if i[2] not in bound_names(self.repo.modules[i[1]].tree.body) and i[1] + "." + i[2] in self.repo.modules:
                    return ("mod", i[1] + "." + i[2])
                return self.resolve(i[1], i[2], depth + 1)
            if i[1] + "." + i[2] in self.repo.modules:
                return ("mod", i[1] + "." + i[2])
        return None

    def lookup(self, f, name):
        """the meaning of a name in a function: ('local', Fn) or module-level meaning"""
        g = f
        while g is not None and g.node is not g.mod.tree:
            if name in self.scope(g):
                return ("local", g)
            g = g.parent
        b = self.body[f.mod.name]
        r = self.resolve(f.mod.name, name)
        if r is not None and not self.rebound(f.mod, name):
            return r
        if name in self.scope(b):
            return ("local", b)
        return None

    def rebound(self, m, name):
        if name in m.assigns:
            return True
        if m.name not in self.globs:
            self.globs[m.name] = {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        return name in self.globs[m.name]

    _sc = None

    def scope(self, f):
        if self._sc is None:
            self._sc = {}
        r = self._sc.get(f)
        if r is None:
            body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
            r = set(bound_names(body))
            if not isinstance(f.node, ast.Module):
                a = f.node.args
                r |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
                r |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
                r -= {n for s in self.nodes(f) if isinstance(s, ast.Global) for n in s.names}
            self._sc[f] = r
        return r

    def member(self, c, name, seen=()):
        """method of a class or its bases: Fn, None, or UNKNOWN when a base is foreign"""
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            x = self.resolve(c.mod.name, b.id) if isinstance(b, ast.Name) else None
            if not isinstance(x, Cls) or x in seen:
                return UNKNOWN
            r = self.member(x, name, seen + (c,))
            if r is not None:
                return r
        return None

    def field(self, c, name, seen=()):
        r = set(c.fields.get(name, ()))
        for b in c.bases:
            x = self.resolve(c.mod.name, b.id) if isinstance(b, ast.Name) else None
            if not isinstance(x, Cls):
                return {UNKNOWN}
            if x not in seen:
                r |= self.field(x, name, seen + (c,))
        return r

    def types(self, e, f):
        """classes an expression can evaluate to; UNKNOWN for anything else"""
        if isinstance(e, ast.Name):
            k = self.lookup(f, e.id)
            if isinstance(k, tuple) and k[0] == "local":
                return k[1].locals.get(e.id, set())
            if isinstance(k, Cls):
                return {("class", k)}
            if isinstance(k, Fn):
                return {("fn", k)}
            if isinstance(k, tuple) and k[0] == "mod":
                return {k}
            return {UNKNOWN}
        if isinstance(e, ast.Attribute):
            out = set()
            for t in self.types(e.value, f):
                if isinstance(t, Cls):
                    m = self.member(t, e.attr)
                    if isinstance(m, Fn):
                        out |= m.rets if m.prop else {("bound", m, t)}
                    elif m is UNKNOWN or e.attr in t.attrs:
                        out.add(UNKNOWN)
                    else:
                        out |= self.field(t, e.attr)
                elif isinstance(t, tuple) and t[0] == "mod":
                    r = self.resolve(t[1], e.attr)
                    out |= {("class", r)} if isinstance(r, Cls) else {("fn", r)} if isinstance(r, Fn) else {UNKNOWN}
                else:
                    out.add(UNKNOWN)
            return out
        if isinstance(e, ast.Call):
            out = set()
            for t in self.types(e.func, f):
                if isinstance(t, tuple) and t[0] == "class":
                    out.add(t[1])
                elif isinstance(t, tuple) and t[0] in ("fn", "bound"):
                    out |= t[1].rets
                else:
                    out.add(UNKNOWN)
            return out
        if isinstance(e, ast.IfExp):
            return self.types(e.body, f) | self.types(e.orelse, f)
        if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return {("tuple", len(e.elts), tuple(frozenset(self.types(x, f)) for x in e.elts))}
        if isinstance(e, ast.NamedExpr):
            return self.types(e.value, f)
        return {UNKNOWN}

    def infer(self):
        """least fixpoint; a set without UNKNOWN is complete"""
        for f in self.live:
            if isinstance(f.node, ast.Module):
                continue
            a = f.node.args
            ps = f.params()
            if f.cls is not None and not f.static and ps:
                f.locals[ps[0]] = {UNKNOWN} if f.clsm else {f.cls}
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    f.locals[x.arg] = {UNKNOWN}
            for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                f.locals.setdefault(p, set()).add(UNKNOWN)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    f.locals.setdefault(p.arg, set()).add(UNKNOWN)
        # functions that escape (used as values), are entry points or have no call site get unknown arguments
        for _ in range(12):
            self.dirty = False
            for f in self.live:
                self.flow(f)
            if not self.dirty:
                break
        else:
            for f in self.live:
                for k in f.locals:
                    f.locals[k] = f.locals[k] | {UNKNOWN}

    def put(self, d, k, ts):
        old = d.get(k)
        new = (old or set()) | ts
        if len(new) > 24:
            new = {UNKNOWN}
        if old is None or new - old:
            d[k] = new
            self.dirty = True

    def assign(self, t, ts, f):
        if isinstance(t, ast.Name):
            k = self.lookup(f, t.id)
            g = k[1] if isinstance(k, tuple) and k[0] == "local" else f
            self.put(g.locals, t.id, ts)
        elif isinstance(t, ast.Attribute):
            for o in self.types(t.value, f):
                if isinstance(o, Cls):
                    o.stored.setdefault(t.attr, t)
                    self.put(o.fields, t.attr, ts)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                got = set()
                for s in ts:
                    if isinstance(s, tuple) and s[0] == "tuple" and s[1] == len(t.elts) and not any(isinstance(y, ast.Starred) for y in t.elts):
                        got |= set(s[2][k])
                    else:
                        got.add(UNKNOWN)
                self.assign(x.value if isinstance(x, ast.Starred) else x, {UNKNOWN} if isinstance(x, ast.Starred) else got, f)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, {UNKNOWN}, f)

    def flow(self, f):
        called = set()
        for n in self.nodes(f):
            if isinstance(n, ast.Call):
                called.add(n.func)
        for n in self.nodes(f):
            if isinstance(n, ast.Assign):
                ts = self.types(n.value, f)
                for t in n.targets:
                    self.assign(t, ts, f)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assign(n.target, self.types(n.value, f), f)
            elif isinstance(n, ast.AugAssign):
                self.assign(n.target, {UNKNOWN}, f)
            elif isinstance(n, ast.NamedExpr):
                self.assign(n.target, self.types(n.value, f), f)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.assign(n.target, {UNKNOWN}, f)
            elif isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.put(f.locals, x.id, {UNKNOWN})
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, {UNKNOWN}, f)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.put(f.locals, n.name, {UNKNOWN})
            elif isinstance(n, (ast.Import, ast.ImportFrom)) and not isinstance(f.node, ast.Module):
                for a in n.names:
                    self.put(f.locals, a.asname or a.name.split(".")[0], {UNKNOWN})
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not isinstance(f.node, ast.Module):
                self.put(f.locals, n.name, {("fn", self.node_fn[n])} if isinstance(n, ast.FunctionDef) and not n.decorator_list else {UNKNOWN})
            elif isinstance(n, ast.Return):
                ts = self.types(n.value, f) if n.value is not None else {UNKNOWN}
                if ts - f.rets:
                    f.rets |= ts
                    self.dirty = True
            elif isinstance(n, ast.Call):
                for t in self.types(n.func, f):
                    self.bind(t, n, f)
            if isinstance(n, (ast.Name, ast.Attribute)) and n not in called and isinstance(n.ctx, ast.Load):
                # used as a value: anything may call it
                for t in self.types(n, f):
                    if isinstance(t, tuple) and t[0] in ("fn", "bound"):
                        self.escape(t[1], t[0] == "bound")
                    elif isinstance(t, tuple) and t[0] == "class" and "__init__" in t[1].methods:
                        self.escape(t[1].methods["__init__"], True)
        if isinstance(f.node, ast.Lambda):
            ts = self.types(f.node.body, f)
            if ts - f.rets:
                f.rets |= ts
                self.dirty = True
            self.escape(f, False)

    def escape(self, g, bound):
        if isinstance(g.node, ast.Module):
            return
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        for p in ps[1:] if g.cls is not None and not g.static else ps:
            self.put(g.locals, p, {UNKNOWN})
        for p in a.kwonlyargs:
            self.put(g.locals, p.arg, {UNKNOWN})

    def target(self, t):
        """(function, number of parameters already supplied) of a callable value"""
        if isinstance(t, tuple) and t[0] == "class":
            m = self.member(t[1], "__init__")
            return (m, 1) if isinstance(m, Fn) else (m, 0)
        if isinstance(t, tuple) and t[0] == "fn":
            return t[1], 0
        if isinstance(t, tuple) and t[0] == "bound":
            return t[1], 0 if t[1].static else 1
        if isinstance(t, Cls):
            m = self.member(t, "__call__")
            return (m, 1) if isinstance(m, Fn) else (UNKNOWN, 0)
        return UNKNOWN, 0

    def bind(self, t, call, f):
        g, skip = self.target(t)
        if not isinstance(g, Fn):
            return
        ps = g.params()[skip:]
        star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
        if star:
            self.escape(g, skip)
            return
        for p, a in zip(ps, call.args):
            self.put(g.locals, p, self.types(a, f))
        names = set(ps) | {x.arg for x in g.node.args.kwonlyargs}
        for k in call.keywords:
            if k.arg in names:
                self.put(g.locals, k.arg, self.types(k.value, f))

    # ---------------------------------------------------------------- rules
    def check_names(self):
        """every name read is bound in an enclosing scope"""
        out, n_ok = [], 0

        def walk(node, scopes, f, live):
            nonlocal n_ok
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                g = self.node_fn[node]
                for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
                    walk(d, scopes, f, live)
                for d in getattr(node, "decorator_list", []):
                    walk(d, scopes, f, live)
                sc = scopes + [self.scope(g)]
                for b in node.body if isinstance(node.body, list) else [node.body]:
                    walk(b, sc, g, g in self.liveset)
                return
            if isinstance(node, ast.ClassDef):
                for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
                    walk(d, scopes, f, live)
                own = bound_names(node.body)
                for b in node.body:
                    walk(b, scopes if isinstance(b, ast.FunctionDef) else scopes + [own], f, live)
                return
            if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                s = {x.id for g in node.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in ast.iter_child_nodes(node):
                    walk(c, scopes + [s], f, live)
                return
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and live:
                if not any(node.id in s for s in scopes) and node.id not in BUILTIN_NAMES:
                    names, full = self.star[f.mod.name]
                    if full and node.id not in names:
                        out.append((node, f, "name '%s' is bound nowhere" % node.id))
                else:
                    n_ok += 1
            for c in ast.iter_child_nodes(node):
                walk(c, scopes, f, live)
        self.liveset = set(self.live)
        for mn in self.mods:
            b = self.body[mn]
            for s in b.node.body:
                walk(s, [self.scope(b)], b, True)
        return out, n_ok

    def check_imports(self):
        out, n = [], 0
        for mn in self.mods:
            m = self.repo.modules[mn]
            for s in ast.walk(m.tree):
                if not isinstance(s, ast.ImportFrom):
                    if isinstance(s, ast.Import):
                        for a in s.names:
                            top = a.name.split(".")[0]
                            if top in self.repo.modules and a.name not in self.repo.modules and not self.is_dir(a.name):
                                out.append((s, self.body[mn], "module '%s' does not exist" % a.name))
                            n += 1
                    continue
                b = m.resolve_from(s)
                own = s.level or b.split(".")[0] in {x.split(".")[0] for x in self.repo.modules}
                if not own:
                    continue
                x = self.repo.modules.get(b)
                for a in s.names:
                    n += 1
                    if a.name == "*":
                        continue
                    if b + "." + a.name in self.repo.modules or self.is_dir(b + "." + a.name):
                        continue
                    if x is None:
                        if not self.is_dir(b):
                            # script-style imports name a module by its last part
                            if s.level or not self.repo.has(b):
                                out.append((s, self.body[mn], "module '%s' does not exist" % b))
                        else:
                            out.append((s, self.body[mn], "'%s' has no '%s'" % (b, a.name)))
                        continue
                    if a.name not in bound_names(x.tree.body) and not (self.star_names(x.name)[0] & {a.name}) and self.star_names(x.name)[1]:
                        out.append((s, self.body[mn], "module '%s' has no '%s'" % (b, a.name)))
        return out, n

    def is_dir(self, name):
        import os
        p = os.path.join(self.repo.root, *name.split("."))
        return os.path.isdir(p)

    def has_attr(self, c, name, seen=()):
        if name in c.methods or name in c.attrs or name in c.stored or (c.spec and name in c.spec) or (name.startswith("__") and name.endswith("__")):
            return True
        if c.jit and (c.spec is None or name in ("class_type",)):
            return True
        for b in c.bases:
            x = self.resolve(c.mod.name, b.id) if isinstance(b, ast.Name) else None
            if not isinstance(x, Cls) or x in seen or self.has_attr(x, name, seen + (c,)):
                return True
        return False

    def dynamic(self, c):
        """fields may be created by name"""
        for n in ast.walk(c.mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars", "exec"):
                return True
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                return True
        return any(m in c.methods for m in ("__getattr__", "__getattribute__"))

    def check_attrs(self):
        """fields and methods read from objects of known class exist; compiled classes declare what they store"""
        out, n_ok = [], 0
        for f in self.live:
            for n in self.nodes(f):
                if not isinstance(n, ast.Attribute):
                    continue
                ts = self.types(n.value, f)
                for t in ts:
                    if isinstance(t, Cls) and not self.dynamic(t):
                        if isinstance(n.ctx, ast.Load):
                            if self.has_attr(t, n.attr):
                                n_ok += 1
                            elif UNKNOWN not in ts:
                                out.append((n, f, "objects of class '%s' have no '%s'" % (t.name, n.attr)))
                        elif t.jit and t.spec is not None:
                            if n.attr in t.spec:
                                n_ok += 1
                            elif UNKNOWN not in ts:
                                out.append((n, f, "compiled class '%s' does not declare the field '%s'" % (t.name, n.attr)))
                    elif isinstance(t, tuple) and t[0] == "mod" and isinstance(n.ctx, ast.Load):
                        m = self.repo.modules[t[1]]
                        s, full = self.star_names(m.name)
                        if n.attr in bound_names(m.tree.body) | s or not full or t[1] + "." + n.attr in self.repo.modules or self.is_dir(t[1] + "." + n.attr) or n.attr.startswith("__"):
                            n_ok += 1
                        else:
                            out.append((n, f, "module '%s' has no '%s'" % (t[1], n.attr)))
        # compiled classes: a declared field that reachable code reads must be assigned somewhere
        for c in self.cls.values():
            if not c.jit or not c.spec:
                continue
            for f in c.methods.values():
                if f not in self.liveset:
                    continue
                for n in self.nodes(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == (f.params() or [None])[0] and isinstance(n.ctx, ast.Load):
                        if n.attr in c.spec and n.attr not in c.stored and n.attr not in c.methods and self.is_scalar(c.spec[n.attr]) is False:
                            out.append((n, f, "field '%s' of compiled class '%s' is never assigned" % (n.attr, c.name)))
                        else:
                            n_ok += 1
        return out, n_ok

    @staticmethod
    def is_scalar(e):
        return isinstance(e, (ast.Name, ast.Attribute)) and not ast.unparse(e).startswith("build")

    def check_calls(self):
        """arguments fit the parameters of what is called"""
        out, n_ok = [], 0
        for f in self.live:
            for n in self.nodes(f):
                if not isinstance(n, ast.Call):
                    continue
                ts = self.types(n.func, f)
                for t in ts:
                    g, skip = self.target(t)
                    if t is not UNKNOWN and isinstance(t, tuple) and t[0] == "class" and g is None:
                        if (n.args or n.keywords) and not t[1].bases and not t[1].node.decorator_list:
                            out.append((n, f, "class '%s' takes no arguments" % t[1].name))
                        else:
                            n_ok += 1
                        continue
                    if not isinstance(g, Fn) or g.prop or self.wrapped(g):
                        continue
                    msg = self.fits(g, skip, n)
                    if msg is None:
                        n_ok += 1
                    elif UNKNOWN not in ts:
                        out.append((n, f, "call of '%s': %s" % (g.qual, msg)))
        return out, n_ok

    @staticmethod
    def wrapped(g):
        """a decorator other than the compilers' may change the parameters"""
        for d in getattr(g.node, "decorator_list", ()):
            nm = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
            if nm not in ("njit", "jit", "staticmethod", "classmethod", "vectorize", "lru_cache", "cache"):
                return True
        return False

    @staticmethod
    def fits(g, skip, n):
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        npos_only = max(0, len(a.posonlyargs) - skip)
        kwo = [x.arg for x in a.kwonlyargs]
        star = any(isinstance(x, ast.Starred) for x in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        given = len([x for x in n.args if not isinstance(x, ast.Starred)])
        if given > len(pos) and a.vararg is None:
            return "%d arguments for %d parameters" % (given, len(pos))
        kws = [k.arg for k in n.keywords if k.arg is not None]
        for k in kws:
            if k not in pos[npos_only:] and k not in kwo and a.kwarg is None:
                return "no parameter '%s'" % k
            if k in pos[:given] and not star:
                return "parameter '%s' given twice" % k
        if star or dstar:
            return None
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        missing = [p for i, p in enumerate(need) if i >= given and p not in kws]
        missing += [p for p, d in zip(kwo, a.kw_defaults) if d is None and p not in kws]
        if missing:
            return "no value for parameter '%s'" % missing[0]
        return None

    def check_unpack(self):
        """a tuple is taken apart into as many names as the function returns"""
        out, n_ok = [], 0
        for f in self.live:
            for n in self.nodes(f):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
                    k = len(n.targets[0].elts)
                    ts = self.types(n.value, f)
                    tup = [t for t in ts if isinstance(t, tuple) and t[0] == "tuple"]
                    if tup and len(tup) == len(ts):
                        if all(t[1] != k for t in tup):
                            out.append((n, f, "%d names for a tuple of %s" % (k, "/".join(str(t[1]) for t in tup))))
                        else:
                            n_ok += 1
        return out, n_ok

    def check_assigned(self):
        """a local variable is not read before every statement that could assign it"""
        out, n_ok = [], 0
        for f in self.live:
            if isinstance(f.node, (ast.Lambda, ast.Module)):
                continue
            sc = self.scope(f)
            a = f.node.args
            par = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}
            free = {n for s in self.nodes(f) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
            maybe = May(sc - free, par)
            maybe.block(f.node.body, set(par))
            for n in maybe.bad:
                out.append((n, f, "'%s' is read before anything can have assigned it" % n.id))
            n_ok += maybe.ok
        return out, n_ok


class May:
    """may-assigned analysis over structured statements: a read is reported when no path to it assigns the variable"""
    def __init__(self, names, par):
        self.names, self.ok, self.bad = names, 0, []

    def reads(self, e, s, comp=frozenset()):
        if e is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for c in ast.iter_child_nodes(e):
                self.reads(c, s, comp | own)
            return
        if isinstance(e, ast.NamedExpr):
            self.reads(e.value, s, comp)
            s.add(e.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.names and e.id not in comp:
                if e.id in s:
                    self.ok += 1
                else:
                    self.bad.append(e)
            return
        for c in ast.iter_child_nodes(e):
            self.reads(c, s, comp)

    def stores(self, t, s):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if isinstance(x.ctx, ast.Store):
                    s.add(x.id)

    def block(self, body, s):
        """returns the may-assigned set after the block; None when it cannot be left normally"""
        for n in body:
            if s is None:
                return None
            s = self.stmt(n, s)
        return s

    @staticmethod
    def join(a, b):
        return b if a is None else a if b is None else a | b

    def stmt(self, n, s):
        if isinstance(n, ast.Assign):
            self.reads(n.value, s)
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Subscript, ast.Attribute)):
                        self.reads(x, s)
                        break
                self.stores(t, s)
            return s
        if isinstance(n, ast.AugAssign):
            self.reads(n.value, s)
            t = n.target
            if isinstance(t, ast.Name):
                if t.id in self.names:
                    if t.id in s:
                        self.ok += 1
                    else:
                        self.bad.append(t)
                    s.add(t.id)
            else:
                self.reads(t, s)
            return s
        if isinstance(n, ast.AnnAssign):
            self.reads(n.value, s)
            if n.value is not None:
                self.stores(n.target, s)
            return s
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(n, ast.While):
                entry = set(s)
            else:
                self.reads(n.iter, s)
                entry = set(s)
            # anything the body assigns may have been assigned by an earlier turn
            e2 = set(entry)
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        e2.add(x.name)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        e2.add(x.id)
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        e2 |= {a.asname or a.name.split(".")[0] for a in x.names}
            if isinstance(n, ast.While):
                for x in ast.walk(n.test):
                    if isinstance(x, ast.NamedExpr):
                        e2.add(x.target.id)
                self.reads(n.test, set(e2))
            else:
                self.stores(n.target, e2)
            self.block(n.body, set(e2))
            return self.block(n.orelse, e2) or e2
        if isinstance(n, ast.If):
            self.reads(n.test, s)
            a = self.block(n.body, set(s))
            b = self.block(n.orelse, set(s))
            return self.join(a, b)
        if isinstance(n, (ast.Try,)):
            e2 = set(s)
            a = self.block(n.body, set(s))
            for b in n.body:
                self.stores(b, e2)
                for x in ast.walk(b):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        e2 |= {y.asname or y.name.split(".")[0] for y in x.names}
            if a is not None:
                a = self.block(n.orelse, a)
            for h in n.handlers:
                h2 = set(e2)
                if h.name:
                    h2.add(h.name)
                a = self.join(a, self.block(h.body, h2))
            if n.finalbody:
                r = self.block(n.finalbody, (a or set()) | e2)
                return None if a is None else r
            return a
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.reads(i.context_expr, s)
                if i.optional_vars is not None:
                    self.stores(i.optional_vars, s)
            return self.block(n.body, s)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            s.add(n.name)
            return s
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return s | {a.asname or a.name.split(".")[0] for a in n.names}
        if isinstance(n, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(n):
                self.reads(c, s)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            return None
        if isinstance(n, ast.Match):
            self.reads(n.subject, s)
            out = set(s)
            for c in n.cases:
                s2 = set(s)
                for x in ast.walk(c.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        s2.add(x.name)
                self.reads(c.guard, s2)
                out = self.join(out, self.block(c.body, s2))
            return out
        for c in ast.iter_child_nodes(n):
            self.reads(c, s)
        return s
