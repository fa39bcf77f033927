"""Parses every module of the repository under analysis and resolves names."""
import ast
import os


class Module:
    def __init__(self, repo, path, name, tree, src):
        self.repo, self.path, self.name, self.tree, self.src = repo, path, name, tree, src
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self._scan(tree.body)
        self.cache = {}

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.add_assign(t.id, s.lineno, s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.add_assign(e.id, s.lineno, ("unpack", s.value, k))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.add_assign(s.target.id, s.lineno, s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.resolve_from(s)
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                self._scan(s.orelse)

    def add_assign(self, name, line, val):
        self.assigns.setdefault(name, []).append((line, val))

    def assign_at(self, name, limit=None):
        """latest top-level assignment of name before line `limit`"""
        c = [x for x in self.assigns.get(name, ()) if limit is None or x[0] < limit]
        return c[-1] if c else None

    def resolve_from(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        if not self.path.endswith("__init__.py"):
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)


class Repo:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.broken = {}
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if not d.startswith(".") and d not in ("__pycache__", "node_modules"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                try:
                    src = open(p, encoding="utf-8").read()
                    tree = ast.parse(src, filename=rel)
                except (SyntaxError, UnicodeDecodeError) as e:
                    self.broken[rel] = str(e)
                    continue
                for n in ast.walk(tree):
                    n._mod = rel
                self.modules[name] = Module(self, rel, name, tree, src)

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            # script-style import: match unique suffix
            c = [k for k in self.modules if k.endswith("." + name)]
            if len(c) == 1:
                m = self.modules[c[0]]
        return m

    def has(self, name):
        return self.module(name) is not None

    def find(self, name, prefer=None):
        """locate a function/class by name; prefer = module name suffix"""
        c = []
        for mn, m in self.modules.items():
            if name in m.funcs or name in m.classes:
                c.append(m)
        if prefer:
            p = [m for m in c if m.name.endswith(prefer)]
            if p:
                return p[0]
        return c[0] if len(c) == 1 else None


def loc(node):
    return "%s:%s" % (getattr(node, "_mod", "?"), getattr(node, "lineno", "?"))
