"""Abstract interpreter building gated value graphs from the repository's ASTs.

Branches are joined with gates (no path enumeration), calls between repository
functions are inlined through the real name resolution, arrays/objects live in
an exact points-to heap.  Loop bounds and array shapes come from a static shape
instantiation; every numeric quantity stays symbolic.
"""
import ast
import itertools
import time
from fractions import Fraction as Fr
import numpy as onp
from . import terms as T
from . import lin
from .repo import loc


END = [None]            # wall-clock end of the whole run


class Undecided(Exception):
    """the analysis cannot give a verdict (never turned into an alarm)"""


class Unsupported(Undecided):
    pass


_ids = itertools.count(1)


class Arr:
    __slots__ = ("buf", "idx")

    def __init__(self, buf, idx):
        self.buf, self.idx = buf, idx

    @property
    def shape(self):
        return self.idx.shape


class Masked:
    """the elements a[mask] for a mask that is not known: all elements, with the mask that selects them"""
    __slots__ = ("nd", "mask")

    def __init__(self, nd, mask):
        self.nd, self.mask = nd, mask


def same_mask(m, n):
    return m.shape == n.shape and all(x is y for x, y in zip(m.flat, n.flat))


class PyList:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class PyDict:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class Obj:
    __slots__ = ("id", "cls")

    def __init__(self, id, cls):
        self.id, self.cls = id, cls


class Func:
    __slots__ = ("node", "mod", "env", "name", "cls", "kind")

    def __init__(self, node, mod, env=None, cls=None, kind=""):
        self.node, self.mod, self.env, self.cls, self.kind = node, mod, env, cls, kind
        self.name = getattr(node, "name", "<lambda>")


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class ClassV:
    __slots__ = ("node", "mod", "name", "members", "_ints")

    @property
    def ints(self):
        if self._ints is None:
            self._ints = int_fields(self)
        return self._ints

    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self._ints = None
        self.members = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = ""
                for d in s.decorator_list:
                    n = d.id if isinstance(d, ast.Name) else ""
                    if n in ("staticmethod", "classmethod", "property"):
                        kind = n
                self.members[s.name] = Func(s, mod, None, self, kind)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = ("expr", s.value)


def int_fields(cls):
    """fields that a compiled class declares as 64-bit integers: assigning a float truncates it silently"""
    spec = None
    for d in cls.node.decorator_list:
        if isinstance(d, ast.Call) and (ast.unparse(d.func).split(".")[-1] == "jitclass"):
            spec = d.args[0] if d.args else next((k.value for k in d.keywords if k.arg == "spec"), None)
    if spec is None:
        return frozenset()
    decl = {}

    def table(name, line):
        """the declarations bound to a module name when the class statement runs"""
        out = {}
        for st in cls.mod.tree.body:
            if st.lineno >= line:
                break
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                out = entries(st.value, st.lineno)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                out = {**out, **entries(st.value, st.lineno)}
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript):
                t = st.targets[0]
                if isinstance(t.value, ast.Name) and t.value.id == name and isinstance(t.slice, ast.Constant):
                    out = {**out, t.slice.value: ast.unparse(st.value)}
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == name and st.value.args:
                a = st.value.args[0]
                if st.value.func.attr == "append":
                    a = ast.List([a], ast.Load())
                if st.value.func.attr in ("append", "extend", "update"):
                    out = {**out, **entries(a, st.lineno)}
        return out

    def entries(e, line):
        if isinstance(e, (ast.List, ast.Tuple)):
            return {x.elts[0].value: ast.unparse(x.elts[1]) for x in e.elts
                    if isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == 2 and isinstance(x.elts[0], ast.Constant)}
        if isinstance(e, ast.Dict):
            return {k.value: ast.unparse(v) for k, v in zip(e.keys, e.values) if isinstance(k, ast.Constant)}
        if isinstance(e, ast.BinOp):
            return {**entries(e.left, line), **entries(e.right, line)}
        if isinstance(e, ast.Name):
            return table(e.id, line)
        if isinstance(e, ast.Call) and e.args:          # list(...), dict(...), OrderedDict(...)
            return entries(e.args[0], line)
        return {}
    decl = entries(spec, cls.node.lineno)
    return frozenset(k for k, v in decl.items() if v.split(".")[-1] in INT_TYPES)


INT_TYPES = {"int64", "int32", "int8", "int16", "intp", "intc", "int_", "uint64", "uint32", "uint8"}


def sig_ints(node):
    """(parameters, result) that an explicit compiled signature declares as integers"""
    for d in getattr(node, "decorator_list", ()):
        if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant) and isinstance(d.args[0].value, str):
            s = d.args[0].value.replace(" ", "")
            if not s.endswith(")"):
                continue
            head, _, rest = s[:-1].partition("(")
            ps, depth, cur = [], 0, ""
            for ch in rest:
                depth += ch in "[(" 
                depth -= ch in "])"
                if ch == "," and depth == 0:
                    ps.append(cur)
                    cur = ""
                else:
                    cur += ch
            if cur:
                ps.append(cur)
            return frozenset(k for k, p in enumerate(ps) if p in INT_TYPES), head in INT_TYPES
    return frozenset(), False


class Builtin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModV:
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class Ext:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Gated:
    __slots__ = ("c", "hi", "lo")

    def __init__(self, c, hi, lo):
        self.c, self.hi, self.lo = c, hi, lo


OPAQUE = {}     # library calls without a model: name -> place


def head_of(v):
    at = T.single_atom(v) if isinstance(v, T.V) else None
    return at.args[0] if at is not None and at.args and isinstance(at.args[0], str) else getattr(at, "op", "?")


class Iter:
    """materialised iterable"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


class State:
    __slots__ = ("heap", "owned", "pc", "lits", "events")

    def __init__(self):
        self.heap, self.owned, self.pc, self.lits, self.events = {}, set(), T.TRUE, (), ()

    def fork(self, c):
        s = State()
        s.heap = dict(self.heap)
        s.owned = set()
        self.owned = set()
        s.pc = T.and_(self.pc, c)
        s.lits = add_lits(self.lits, c)
        s.events = self.events
        return s


def add_lits(lits, c):
    v = c
    out = list(lits)
    while isinstance(v, T.Ite):
        if v.lo is T.FALSE:
            l = (v.c, True)
            v = v.hi
        elif v.hi is T.FALSE:
            l = (v.c, False)
            v = v.lo
        else:
            break
        if l not in out:
            out.append(l)
    return tuple(out)


class Out:
    __slots__ = ("kind", "value", "st")

    def __init__(self, kind, value, st):
        self.kind, self.value, self.st = kind, value, st


def asint(v):
    if isinstance(v, T.BoolL):
        return 1 if v is T.TRUE else 0
    if isinstance(v, T.Poly) and T.is_const(v):
        c = T.const_val(v)
        if c.denominator == 1:
            return int(c)
    return None


def const_str(v):
    if isinstance(v, T.StrL) and all(isinstance(p, str) for p in v.key):
        return "".join(v.key)
    return None


COVER = set() if __import__("os").environ.get("SA_COVER") else None     # statements reached (tools/cover.py)


class Interp:
    def __init__(self, repo, facts=(), ext=None, max_while=64, overrides=None):
        self.repo = repo
        self.st = State()
        self.facts = []
        for f in facts:
            self.assume(f)
        self.ext = dict(ext or {})
        self.overrides = dict(overrides or {})   # function name -> Builtin
        self.raises = []
        self.created = []
        self.oob = []
        self.max_while = max_while
        self.pcs = []
        self.depth = 0
        self.calls = []            # trace of inlined functions (evidence)
        self.analysed = set()      # (module path, qualname)
        self.stack = []
        self._mod_cache = {}
        self._simp = {}
        self.exact = False         # ignore integer slots (reference evaluations)
        self.intbufs = set()       # buffers of integer arrays: they keep whole numbers only
        self.intlists = set()      # lists written with integer literals only
        self.node = None
        self.unbound_reads = []
        self.truncate_while = None
        self.drop_tiny = None      # floats below this are read as 0 (regularisers)

    # -------------------------------------------------------------- facts
    def assume(self, c):
        l = add_lits((), c)
        self.facts += [x for x in l if x not in self.facts]

    def decide(self, c):
        """simplify a boolean diagram under facts and path literals"""
        if not isinstance(c, T.Ite):
            return c
        lits = tuple(self.facts) + self.st.lits
        return self._simplify(c, lits)

    def _simplify(self, v, lits):
        if not isinstance(v, T.Ite):
            return v
        k = (v.uid, lits)
        r = self._simp.get(k)
        if r is not None:
            return r
        e = lin.entails(lits, v.c)
        if e is True:
            r = self._simplify(v.hi, lits)
        elif e is False:
            r = self._simplify(v.lo, lits)
        else:
            r = T.mk_ite(v.c, self._simplify(v.hi, lits + ((v.c, True),)),
                         self._simplify(v.lo, lits + ((v.c, False),)))
        self._simp[k] = r
        return r

    def abs_pc(self):
        r = self.st.pc
        for p in self.pcs:
            r = T.and_(p, r)
        return r

    def log(self, kind, *args):
        self.st.events = self.st.events + ((self.abs_pc(), kind, args, self.node),)

    # -------------------------------------------------------------- heap
    def new_arr(self, cells, shape):
        b = next(_ids)
        self.st.heap[b] = list(cells)
        self.st.owned.add(b)
        n = 1
        for s in shape:
            n *= s
        return Arr(b, onp.arange(n).reshape(shape))

    def arr_of(self, nd):
        """numpy object array of V -> Arr"""
        nd = onp.asarray(nd, dtype=object)
        return self.new_arr(list(nd.flat), nd.shape)

    def cells(self, a):
        h = self.st.heap[a.buf]
        out = onp.empty(a.idx.shape, dtype=object)
        of = out.reshape(-1) if out.size else out
        if a.idx.ndim == 0:
            out[()] = h[int(a.idx)]
            return out
        flat = a.idx.reshape(-1)
        for k in range(flat.size):
            of[k] = h[flat[k]]
        return of.reshape(a.idx.shape)

    def as_int(self, v):
        """what an integer slot keeps of a number"""
        if isinstance(v, Gated) or self.exact:
            return v
        return T.trunc(v) if isinstance(v, T.V) else v

    def _own(self, id):
        c = self.st.heap[id]
        if id not in self.st.owned:
            c = list(c) if isinstance(c, list) else dict(c)
            self.st.heap[id] = c
            self.st.owned.add(id)
        return c

    def new_list(self, items):
        i = next(_ids)
        self.st.heap[i] = list(items)
        self.st.owned.add(i)
        return PyList(i)

    def new_dict(self, d=None):
        i = next(_ids)
        self.st.heap[i] = dict(d or {})
        self.st.owned.add(i)
        return PyDict(i)

    def new_obj(self, attrs=None, cls=None):
        i = next(_ids)
        self.st.heap[i] = dict(attrs or {})
        self.st.owned.add(i)
        return Obj(i, cls)

    def vec(self, name, n, pos=False):
        mk = T.possym if pos else T.sym
        return self.new_arr([mk(name, T.const(k)) for k in range(n)], (n,))

    def tensor(self, name, shape):
        out = onp.empty(shape, dtype=object)
        for ix in onp.ndindex(*shape):
            out[ix] = T.sym(name, *[T.const(k) for k in ix])
        return self.arr_of(out)

    def to_val(self, x):
        """python literal -> interpreter value"""
        if isinstance(x, (T.V, Arr, PyList, PyDict, Obj, Func, Bound, ClassV, Builtin, ModV, Ext, Gated, tuple)):
            return x
        if isinstance(x, dict):
            return self.new_dict({k: self.to_val(v) for k, v in x.items()})
        if isinstance(x, list):
            return self.new_list([self.to_val(v) for v in x])
        if callable(x):
            return Builtin(getattr(x, "__name__", "stub"), x)
        return T.lift(x)

    def getattr_obj(self, o, name):
        return self.st.heap[o.id][name]

    def setattr_obj(self, o, name, v):
        self._own(o.id)[name] = v

    # -------------------------------------------------------------- merge
    def mergeval(self, c, a, b, heaps):
        if a is b:
            return a
        if a is UNBOUND:
            return b
        if b is UNBOUND:
            return a
        if isinstance(a, T.V) and isinstance(b, T.V):
            return T.ite(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.buf == b.buf and a.idx.shape == b.idx.shape and (a.idx == b.idx).all():
                return a
            if a.idx.shape == b.idx.shape:
                h1, h2, hm = heaps
                i = next(_ids)
                c1 = [h1[a.buf][k] for k in a.idx.reshape(-1)]
                c2 = [h2[b.buf][k] for k in b.idx.reshape(-1)]
                hm[i] = [self.mergeval(c, x, y, heaps) for x, y in zip(c1, c2)]
                if a.buf in self.intbufs and b.buf in self.intbufs:
                    self.intbufs.add(i)
                return Arr(i, onp.arange(a.idx.size).reshape(a.idx.shape))
            return Gated(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergeval(c, x, y, heaps) for x, y in zip(a, b))
        if isinstance(a, PyList) and isinstance(b, PyList):
            if a.id == b.id:
                return a
            h1, h2, hm = heaps
            l1, l2 = h1[a.id], h2[b.id]
            if len(l1) == len(l2):
                i = next(_ids)
                hm[i] = [self.mergeval(c, x, y, heaps) for x, y in zip(l1, l2)]
                return PyList(i)
            return Gated(c, a, b)
        if isinstance(a, (PyDict, Obj)) and type(a) is type(b) and a.id == b.id:
            return a
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            h1, h2, hm = heaps
            if set(h1[a.id]) == set(h2[b.id]):
                i = next(_ids)
                hm[i] = {k: self.mergeval(c, h1[a.id][k], h2[b.id][k], heaps) for k in h1[a.id]}
                return PyDict(i)
            return Gated(c, a, b)
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.env == b.env:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and isinstance(a.func, Func) and isinstance(b.func, Func) and a.func.node is b.func.node:
            s = self.mergeval(c, a.self, b.self, heaps)
            if not isinstance(s, Gated):
                return Bound(a.func, s)
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
            return a
        if isinstance(a, ClassV) and isinstance(b, ClassV) and a.node is b.node:
            return a
        return Gated(c, a, b)

    def merge(self, c, s1, s2):
        """join of two states; c true on s1's paths and false on s2's"""
        if s1 is s2:
            return s1
        s = State()
        h = dict(s2.heap)
        h1, h2 = s1.heap, s2.heap
        heaps = (h1, h2, h)
        for i, v1 in h1.items():
            v2 = h2.get(i)
            if v2 is None:
                h[i] = v1
            elif v1 is not v2:
                if isinstance(v1, list):
                    if len(v1) == len(v2):
                        h[i] = [self.mergeval(c, x, y, heaps) for x, y in zip(v1, v2)]
                    else:
                        raise Undecided("list of path-dependent length at %s" % loc(self.node))
                else:
                    d = {}
                    for k in list(v1) + [k for k in v2 if k not in v1]:
                        d[k] = self.mergeval(c, v1.get(k, UNBOUND), v2.get(k, UNBOUND), heaps)
                    h[i] = d
        s.heap = h
        s.pc = T.or_(s1.pc, s2.pc)
        s.lits = tuple(l for l in s1.lits if l in s2.lits)
        k = 0
        e1, e2 = s1.events, s2.events
        while k < len(e1) and k < len(e2) and e1[k] is e2[k]:
            k += 1
        s.events = e1[:k] + e1[k:] + e2[k:]
        return s

    def merge_states(self, outs):
        """fold outcomes (disjoint pcs) -> (state, value)"""
        res = outs[-1]
        st, val = res.st, res.value
        for o in reversed(outs[:-1]):
            sel = o.st.pc
            # selector only needs to separate o from the rest
            m = self.merge(sel, o.st, st)
            if o.value is None and val is None:
                nv = None
            else:
                nv = self.mergeval(sel, o.value, val, (o.st.heap, st.heap, m.heap))
            st, val = m, nv
        return st, val

    # -------------------------------------------------------------- statements
    def exec_block(self, body, env, st):
        outs = []
        for s in body:
            res = self.exec_stmt(s, env, st)
            falls = [o for o in res if o.kind == "fall"]
            outs += [o for o in res if o.kind != "fall"]
            if not falls:
                return outs
            if len(falls) > 1:
                st, _ = self.merge_states(falls)
            else:
                st = falls[0].st
        outs.append(Out("fall", None, st))
        return outs

    def branch(self, cond, env, f1, f2, st):
        """cond boolean V; f1/f2: state -> outs"""
        self.st = st
        c = self.decide(cond)
        if c is T.TRUE:
            return f1(st)
        if c is T.FALSE:
            return f2(st)
        # remove parts already excluded by the path condition
        if T.and_(st.pc, c) is T.FALSE:
            return f2(st)
        if T.and_(st.pc, T.not_(c)) is T.FALSE:
            return f1(st)
        s1 = st.fork(c)
        s2 = st.fork(T.not_(c))
        o1 = f1(s1)
        o2 = f2(s2)
        fa = [o for o in o1 if o.kind == "fall"]
        fb = [o for o in o2 if o.kind == "fall"]
        outs = [o for o in o1 if o.kind != "fall"] + [o for o in o2 if o.kind != "fall"]
        if fa and fb:
            a, b = fa[0], fb[0]
            m = self.merge(c, a.st, b.st)
            outs.append(Out("fall", None, m))
        elif fa or fb:
            outs.append((fa or fb)[0])
        return outs

    def exec_stmt(self, s, env, st):
        self.st = st
        self.node = s
        if COVER is not None:
            COVER.add(loc(s))
        if END[0] and time.time() > END[0]:
            raise Undecided("time budget of the run exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(s).__name__, loc(s)))
        r = m(s, env)
        if r is None:
            return [Out("fall", None, self.st)]
        return r

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        return

    def s_Import(self, s, env):
        for a in s.names:
            self.set_name(env, a.asname or a.name.split(".")[0], self.import_mod(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        mod = self.st.heap[env]["__module__"]
        base = mod.resolve_from(s)
        for a in s.names:
            self.set_name(env, a.asname or a.name, self.import_from(base, a.name))

    def s_Global(self, s, env):
        return

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, env):
        self.set_name(env, s.name, Func(s, self.st.heap[env]["__module__"], env))

    def s_Return(self, s, env):
        v = T.NONE if s.value is None else self.ev(s.value, env)
        return [Out("ret", v, self.st)]

    def s_Break(self, s, env):
        return [Out("brk", None, self.st)]

    def s_Continue(self, s, env):
        return [Out("cont", None, self.st)]

    def s_Raise(self, s, env):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        self.raises.append((self.abs_pc(), name, s))
        return [Out("raise", name, self.st)]

    def s_Assert(self, s, env):
        c = T.truth(self.scalar(self.ev(s.test, env)))

        def bad(st):
            self.st = st
            self.raises.append((self.abs_pc(), "AssertionError", s))
            return [Out("raise", "AssertionError", st)]
        return self.branch(c, env, lambda st: [Out("fall", None, st)], bad, self.st)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Name):
                self._own(env).pop(t.id, None)

    def delitem(self, o, k):
        if isinstance(o, PyDict):
            ks = self.dkey(k)
            self._own(o.id).pop(ks, None)
            return
        if isinstance(o, Obj) and o.cls is None and "__delitem__" in self.st.heap[o.id]:
            self.call(self.st.heap[o.id]["__delitem__"], [k], {})
            return
        self.log("delitem", o, k)

    def s_If(self, s, env):
        c = T.truth(self.scalar(self.ev(s.test, env)))
        return self.branch(c, env, lambda st: self.exec_block(s.body, env, st),
                           lambda st: self.exec_block(s.orelse, env, st), self.st)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.get_name(env, t.id, t)
            setter = lambda v: self.set_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            setter = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.getitem(o, k)
            setter = lambda v: self.setitem(o, k, v)
        r = self.ev(s.value, env)
        if isinstance(cur, Arr):
            v = self.binop(s.op, cur, r)
            if isinstance(v, Arr) and v.shape == cur.shape:
                self.store_arr(cur, self.cells(v))
                if not isinstance(t, ast.Subscript):
                    setter(cur)
                return
            setter(v)
            return
        if isinstance(cur, PyList) and isinstance(s.op, ast.Add):
            self._own(cur.id).extend(self.iterate(r))
            return
        setter(self.binop(s.op, cur, r))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Gated):
                raise Undecided("unpacking of path-dependent value at %s" % loc(t))
            if isinstance(v, T.V):
                items = [T.app("unpack", v, T.const(k), T.const(len(t.elts))) for k in range(len(t.elts))]
            else:
                items = self.iterate(v)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                n = len(items) - len(t.elts) + 1
                items = items[:k] + [self.new_list(items[k:k + n])] + items[k + n:]
            if len(items) != len(t.elts):
                self.raises.append((self.abs_pc(), "ValueError", t))
                raise Undecided("unpack arity at %s" % loc(t))
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        else:
            raise Unsupported("assignment target at %s" % loc(t))

    def loop(self, st, step, items):
        """items: iterable; step(item, st)->outs. returns outs"""
        outs, brk = [], []
        falls = [st]
        for it in items:
            if not falls:
                break
            cur = falls[0]
            res = step(it, cur)
            nxt = []
            for o in res:
                if o.kind in ("fall", "cont"):
                    nxt.append(Out("fall", None, o.st))
                elif o.kind == "brk":
                    brk.append(Out("fall", None, o.st))
                else:
                    outs.append(o)
            if len(nxt) > 1:
                m, _ = self.merge_states(nxt)
                falls = [m]
            else:
                falls = [o.st for o in nxt]
        return outs, brk, falls

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        items = self.iterate(it)

        def step(item, st):
            self.st = st
            self.node = s
            self.assign(s.target, item, env)
            return self.exec_block(s.body, env, self.st)
        outs, brk, falls = self.loop(self.st, step, items)
        return self._loop_end(s, env, outs, brk, falls)

    def _loop_end(self, s, env, outs, brk, falls):
        fin = []
        if falls:
            if s.orelse:
                r = self.exec_block(s.orelse, env, falls[0])
                outs += [o for o in r if o.kind != "fall"]
                fin += [o for o in r if o.kind == "fall"]
            else:
                fin.append(Out("fall", None, falls[0]))
        fin += brk
        if fin:
            if len(fin) > 1:
                m, _ = self.merge_states(fin)
            else:
                m = fin[0].st
            outs.append(Out("fall", None, m))
        return outs

    def s_While(self, s, env):
        outs, brk, done = [], [], []
        st = self.st
        n = 0
        while True:
            self.st = st
            self.node = s
            c = self.decide(T.truth(self.scalar(self.ev(s.test, env))))
            st = self.st
            if c is not T.TRUE and T.and_(st.pc, T.not_(c)) is T.FALSE:
                c = T.TRUE
            if c is T.FALSE or T.and_(st.pc, c) is T.FALSE:
                done.append(Out("fall", None, st))
                break
            n += 1
            if c is not T.TRUE:
                s2 = st.fork(T.not_(c))
                done.append(Out("fall", None, s2))
                st = st.fork(c)
            if self.truncate_while is not None and n > self.truncate_while:
                break       # exits of the first rounds only
            if n > self.max_while and (c is not T.TRUE or n > 500 * self.max_while):
                raise Undecided("while loop at %s not bounded by the shape instance" % loc(s))
            res = self.exec_block(s.body, env, st)
            nxt = []
            for o in res:
                if o.kind in ("fall", "cont"):
                    nxt.append(Out("fall", None, o.st))
                elif o.kind == "brk":
                    brk.append(Out("fall", None, o.st))
                else:
                    outs.append(o)
            if not nxt:
                st = None
                break
            st = nxt[0].st if len(nxt) == 1 else self.merge_states(nxt)[0]
        if done and len(done) > 1:
            done = [Out("fall", None, self.merge_states(done)[0])]
        return self._loop_end(s, env, outs, brk, [o.st for o in done])

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self._ctx = v
        ctxs = []
        outs = self.exec_block(s.body, env, self.st)
        for o in outs:
            self.st = o.st
            self.log("with_exit", s)
        return outs

    def s_Try(self, s, env):
        res = self.exec_block(s.body, env, self.st)
        outs = []
        fall = []
        for o in res:
            if o.kind == "raise" and s.handlers:
                h = s.handlers[0]
                for hh in s.handlers:
                    if isinstance(hh.type, ast.Name) and hh.type.id == o.value:
                        h = hh
                        break
                r = self.exec_block(h.body, env, o.st)
            elif o.kind == "fall" and s.orelse:
                r = self.exec_block(s.orelse, env, o.st)
            else:
                r = [o]
            for q in r:
                (fall if q.kind == "fall" else outs).append(q)
        if fall:
            m = fall[0].st if len(fall) == 1 else self.merge_states(fall)[0]
            if s.finalbody:
                r = self.exec_block(s.finalbody, env, m)
                outs += r
            else:
                outs.append(Out("fall", None, m))
        return outs

    # -------------------------------------------------------------- names
    def set_name(self, env, name, v):
        self._own(env)[name] = v

    def get_name(self, env, name, node=None):
        e = env
        while e is not None:
            d = self.st.heap[e]
            if name in d:
                return d[name]
            mod = d["__module__"]
            lim = d.get("__limit__")
            e = d["__parent__"]
        return self.global_name(mod, name, node, lim)

    def global_name(self, mod, name, node=None, limit=None):
        a = mod.assign_at(name, limit) if name not in mod.funcs and name not in mod.classes else None
        k = (mod.name, name, a[0] if a else None)
        if k in self._mod_cache:
            return self._mod_cache[k]
        v = self._global(mod, name, node, a)
        if a is not None and isinstance(v, (PyList, PyDict, Arr)):
            return v        # mutable module globals live in the heap of one state
        self._mod_cache[k] = v
        return v

    def _global(self, mod, name, node, asg=None):
        if name in self.overrides:
            return self.overrides[name]
        if name in mod.funcs:
            return Func(mod.funcs[name], mod)
        if name in mod.classes:
            return ClassV(mod.classes[name], mod)
        if asg is not None:
            line, a = asg
            env = self.module_env(mod)
            self.st.heap[env]["__limit__"] = line
            v = self.ev(a[1] if isinstance(a, tuple) else a, env)
            if isinstance(a, tuple):
                v = self.iterate(v)[a[2]]
            return v
        if name in mod.imports:
            i = mod.imports[name]
            if i[0] == "mod":
                return self.import_mod(i[1])
            return self.import_from(i[1], i[2])
        from .npmore import BUILTINS
        if name in BUILTINS:
            return BUILTINS[name]
        # star imports
        for iname, i in mod.imports.items():
            if iname == "*" and self.repo.has(i[1]):
                return self.global_name(self.repo.module(i[1]), name, node)
        raise Undecided("name %s is not defined (%s)" % (name, loc(node) if node is not None else mod.path))

    def module_env(self, mod):
        i = next(_ids)
        self.st.heap[i] = {"__module__": mod, "__parent__": None}
        self.st.owned.add(i)
        return i

    def import_mod(self, name):
        m = self.repo.module(name) if not name.split(".")[0] in STDLIB else None
        if m is not None:
            return ModV(m)
        return Ext(CANON.get(name, name))

    def import_from(self, base, name):
        m = self.repo.module(base) if base and base.split(".")[0] not in STDLIB else None
        if m is not None:
            sub = self.repo.module(base + "." + name)
            if name in m.funcs or name in m.classes or name in m.assigns or name in m.imports:
                return self.global_name(m, name)
            if sub is not None:
                return ModV(sub)
            return self.global_name(m, name)
        sub = self.repo.module(base + "." + name)
        if sub is not None:
            return ModV(sub)
        full = (base + "." if base else "") + name
        return Ext(CANON.get(full, full))

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(e).__name__, loc(e)))
        return m(e, env)

    def scalar(self, v):
        """value -> V (for conditions)"""
        if isinstance(v, T.V):
            return v
        if isinstance(v, Arr):
            if v.idx.size == 1:
                return self.cells(v).reshape(-1)[0]
            raise Undecided("truth value of an array at %s" % loc(self.node))
        if isinstance(v, PyList):
            return T.lift(len(self.st.heap[v.id]) > 0)
        if isinstance(v, PyDict):
            return T.lift(len(self.st.heap[v.id]) > 0)
        if isinstance(v, tuple):
            return T.lift(len(v) > 0)
        if isinstance(v, Gated):
            return T.ite(v.c, self.scalar(v.hi), self.scalar(v.lo))
        if isinstance(v, Masked):
            raise Undecided("truth value of an array at %s" % loc(self.node))
        return T.TRUE

    def e_Constant(self, e, env):
        v = e.value
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, complex):
            return T.app("complex", T.strl(repr(v)))
        if isinstance(v, bytes):
            return T.strl(v.decode("latin1"))
        if self.drop_tiny and isinstance(v, float) and 0 < abs(v) < self.drop_tiny:
            return T.ZERO
        return T.lift(v)

    def e_Name(self, e, env):
        if e.id in ("True", "False", "None"):
            return {"True": T.TRUE, "False": T.FALSE, "None": T.NONE}[e.id]
        v = self.get_name(env, e.id, e)
        return v

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        self.node = e
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return tuple(out)

    def e_List(self, e, env):
        r = self.new_list(self.e_Tuple(e, env))
        if e.elts and all(self._int_literal(x) for x in e.elts):
            self.intlists.add(r.id)
        return r

    def _int_literal(self, x):
        if isinstance(x, ast.UnaryOp):
            return self._int_literal(x.operand)
        if isinstance(x, ast.List):
            return bool(x.elts) and all(self._int_literal(y) for y in x.elts)
        return isinstance(x, ast.Constant) and type(x.value) is int

    def e_Set(self, e, env):
        return self.new_list(self.e_Tuple(e, env))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                d.update(self.st.heap[o.id])
                continue
            d[self.dkey(self.ev(k, env))] = self.ev(v, env)
        return self.new_dict(d)

    def dkey(self, k):
        s = const_str(k) if isinstance(k, T.StrL) else None
        if s is not None:
            return s
        i = asint(k) if isinstance(k, T.V) else None
        if i is not None:
            return i
        if isinstance(k, T.V) or isinstance(k, tuple):
            return k
        raise Undecided("dictionary key at %s" % loc(self.node))

    def e_JoinedStr(self, e, env):
        r = T.strl("")
        for p in e.values:
            if isinstance(p, ast.Constant):
                r = T.add(r, T.strl(p.value))
            else:
                v = self.ev(p.value, env)
                r = T.add(r, self.tostr(v))
        return r

    def e_FormattedValue(self, e, env):
        return self.tostr(self.ev(e.value, env))

    def tostr(self, v):
        if isinstance(v, T.V):
            def f(x):
                if isinstance(x, T.StrL):
                    return x
                if isinstance(x, T.BoolL):
                    return T.strl(str(x.key))
                if isinstance(x, T.NoneL):
                    return T.strl("None")
                if T.is_const(x):
                    c = T.const_val(x)
                    return T.strl(str(int(c)) if c.denominator == 1 else repr(float(c)))
                return T.strl(x)
            return T.apply1("tostr", f, v)
        return T.strl(T.app("str", *self.freeze(v)))

    def freeze(self, v):
        """-> tuple of hashables describing the value"""
        if isinstance(v, T.V):
            return (v,)
        if isinstance(v, Arr):
            return ("arr", v.shape) + tuple(self.cells(v).reshape(-1))
        if isinstance(v, PyList):
            return ("list",) + tuple(self.freeze(x) for x in self.st.heap[v.id])
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.freeze(x) for x in v)
        if isinstance(v, PyDict):
            return ("dict",) + tuple((k,) + self.freeze(x) for k, x in self.st.heap[v.id].items())
        if isinstance(v, Obj):
            return ("obj", v.cls.name if v.cls else None, v.id)
        if isinstance(v, Func):
            return ("func", v.name)
        if isinstance(v, Ext):
            return ("ext", v.name)
        if isinstance(v, Bound):
            return ("bound", v.func.name) + self.freeze(v.self)
        if isinstance(v, Gated):
            return ("gated", v.c, self.freeze(v.hi), self.freeze(v.lo))
        return (type(v).__name__,)

    def e_Lambda(self, e, env):
        return Func(e, self.st.heap[env]["__module__"], env)

    def e_IfExp(self, e, env):
        c = self.decide(T.truth(self.scalar(self.ev(e.test, env))))
        return self.choose(c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env))

    def choose(self, c, f1, f2):
        if c is T.TRUE:
            return f1()
        if c is T.FALSE:
            return f2()
        st = self.st
        if T.and_(st.pc, c) is T.FALSE:
            return f2()
        if T.and_(st.pc, T.not_(c)) is T.FALSE:
            return f1()
        s1, s2 = st.fork(c), st.fork(T.not_(c))
        self.st = s1
        a = f1()
        s1 = self.st
        self.st = s2
        b = f2()
        s2 = self.st
        m = self.merge(c, s1, s2)
        m.lits = st.lits
        m.pc = st.pc
        r = self.mergeval(c, a, b, (s1.heap, s2.heap, m.heap))
        self.st = m
        return r

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)

        def rec(k):
            v = self.ev(e.values[k], env)
            if k == len(e.values) - 1:
                return v
            if isinstance(v, T.V) or not isinstance(v, (Arr,)):
                c = self.decide(T.truth(self.scalar(v)))
            else:
                c = self.decide(T.truth(self.scalar(v)))
            if c is T.TRUE:
                return rec(k + 1) if isand else v
            if c is T.FALSE:
                return v if isand else rec(k + 1)
            if isand:
                return self.choose(c, lambda: self.boolv(rec(k + 1)), lambda: T.FALSE)
            return self.choose(c, lambda: T.TRUE, lambda: self.boolv(rec(k + 1)))
        return rec(0)

    def boolv(self, v):
        return T.truth(self.scalar(v))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return T.not_(T.truth(self.scalar(v)))
        if isinstance(e.op, ast.USub):
            return self.ew(T.neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.ew(lambda x: T.not_(T.truth(x)), v)
        raise Unsupported("unary at %s" % loc(e))

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        self.node = e
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Gated) or isinstance(b, Gated):
            return self.lift_gated(lambda x, y: self.binop(op, x, y), a, b)
        seq = (PyList, tuple)
        if isinstance(op, ast.Add) and isinstance(a, seq) and isinstance(b, seq):
            r = self.iterate(a) + self.iterate(b)
            return tuple(r) if isinstance(a, tuple) else self.new_list(r)
        if isinstance(op, ast.Mult) and (isinstance(a, seq) or isinstance(b, seq)):
            if isinstance(b, seq):
                a, b = b, a
            n = asint(b)
            if n is None:
                raise Undecided("sequence repeat at %s" % loc(self.node))
            r = self.iterate(a) * n
            return tuple(r) if isinstance(a, tuple) else self.new_list(r)
        if isinstance(op, ast.Mod) and isinstance(a, T.StrL):
            return T.strl(T.app("fmt", a, *self.freeze(b)))
        if isinstance(op, ast.MatMult):
            from .npmodel import dot
            return dot(self, a, b)
        if isinstance(op, ast.Div) and (isinstance(a, T.StrL) or isinstance(b, T.StrL)):
            return T.add(T.add(a, T.strl("/")), b)
        f = BIN.get(type(op))
        if f is None:
            raise Unsupported("operator %s at %s" % (type(op).__name__, loc(self.node)))
        return self.ew(f, a, b)

    def lift_gated(self, f, *args):
        for k, a in enumerate(args):
            if isinstance(a, Gated):
                def with_(x):
                    return f(*(args[:k] + (x,) + args[k + 1:]))
                c = self.decide(a.c)
                return self.choose(c, lambda: self.lift_gated(f, *(args[:k] + (a.hi,) + args[k + 1:])),
                                   lambda: self.lift_gated(f, *(args[:k] + (a.lo,) + args[k + 1:])))
        return f(*args)

    def nd(self, v):
        """value -> numpy object array or V"""
        if isinstance(v, T.V):
            return v
        if isinstance(v, Arr):
            return self.cells(v)
        if isinstance(v, (PyList, tuple)):
            return self.nd_of_seq(v)
        if isinstance(v, Iter):
            return self.nd_of_seq(tuple(v.items))
        raise Undecided("array operand of type %s at %s" % (type(v).__name__, loc(self.node)))

    def nd_arr(self, v):
        """value -> numpy object array"""
        r = self.nd(v)
        if isinstance(r, onp.ndarray):
            return r
        z = onp.empty((), dtype=object)
        z[()] = r
        return z

    def nd_of_seq(self, v):
        items = [self.nd(x) for x in self.iterate(v)]
        if not items:
            return onp.empty((0,), dtype=object)
        shp = items[0].shape if isinstance(items[0], onp.ndarray) else ()
        out = onp.empty((len(items),) + shp, dtype=object)
        for k, x in enumerate(items):
            if (x.shape if isinstance(x, onp.ndarray) else ()) != shp:
                raise Undecided("ragged array at %s" % loc(self.node))
            if shp:
                out[k] = x
            else:
                out[k] = x
        return out

    def ew(self, f, *args):
        """elementwise with broadcasting"""
        if any(isinstance(a, Gated) for a in args):
            return self.lift_gated(lambda *xs: self.ew(f, *xs), *args)
        if all(isinstance(a, T.V) for a in args):
            return f(*args)
        sel = [a for a in args if isinstance(a, Masked)]
        if sel:
            m = sel[0].mask
            if not all(isinstance(a, T.V) or (isinstance(a, Masked) and same_mask(a.mask, m)) for a in args):
                raise Undecided("mixed masks at %s" % loc(self.node))
            out = onp.empty(m.shape, dtype=object)
            for ix in onp.ndindex(*m.shape):
                out[ix] = f(*[a.nd[ix] if isinstance(a, Masked) else a for a in args])
            return Masked(out, m)
        for a in args:
            if not isinstance(a, (T.V, Arr, PyList, tuple, Iter)):
                return self.opaque_op(args)
        nds = [self.nd(a) for a in args]
        arrs = []
        for n in nds:
            if isinstance(n, onp.ndarray):
                arrs.append(n)
            else:
                z = onp.empty((), dtype=object)
                z[()] = n
                arrs.append(z)
        try:
            shp = onp.broadcast_shapes(*[a.shape for a in arrs])
        except ValueError:
            self.raises.append((self.abs_pc(), "ValueError", self.node))
            raise Undecided("shape mismatch %s at %s" % ([a.shape for a in arrs], loc(self.node)))
        arrs = [onp.broadcast_to(a, shp) for a in arrs]
        out = onp.empty(shp, dtype=object)
        for ix in onp.ndindex(*shp):
            out[ix] = f(*[a[ix] for a in arrs])
        return self.arr_of(out)

    def opaque_op(self, args):
        raise Undecided("operation on %s at %s" % ([type(a).__name__ for a in args], loc(self.node)))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for op, rhs in zip(e.ops, e.comparators):
            right = self.ev(rhs, env)
            self.node = e
            r = self.compare(op, left, right)
            if res is None:
                res = r
            else:
                res = self.ew(lambda x, y: T.and_(T.truth(x), T.truth(y)), res, r)
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Gated) or isinstance(b, Gated):
            return self.lift_gated(lambda x, y: self.compare(op, x, y), a, b)
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if isinstance(a, T.V) and isinstance(b, T.V):
                def f(x, y):
                    if isinstance(x, T.NoneL) != isinstance(y, T.NoneL):
                        return T.FALSE
                    for p, q in ((x, y), (y, x)):
                        if isinstance(p, T.BoolL) and isinstance(q, T.Poly) and T.is_const(q):
                            return T.FALSE      # 1 is not True
                    return T.eq(x, y)
                r = T.apply2("is", f, a, b)
            else:
                r = T.lift(a is b)
            return T.not_(r) if t is ast.IsNot else r
        if t in (ast.In, ast.NotIn):
            r = self.contains(a, b)
            return T.not_(r) if t is ast.NotIn else r
        if isinstance(a, T.V) and isinstance(b, T.V):
            return CMP[t](a, b)
        if isinstance(a, (Arr, Masked)) or isinstance(b, (Arr, Masked)):
            return self.ew(CMP[t], a, b)
        if isinstance(a, (PyList, tuple)) and isinstance(b, (PyList, tuple)):
            x, y = self.iterate(a), self.iterate(b)
            if t in (ast.Eq, ast.NotEq):
                if len(x) != len(y):
                    r = T.FALSE
                else:
                    r = T.TRUE
                    for p, q in zip(x, y):
                        r = T.and_(r, self.boolv(self.compare(ast.Eq(), p, q)))
                return T.not_(r) if t is ast.NotEq else r
        if t in (ast.Eq, ast.NotEq):
            # different kinds of object (e.g. dict == 0): python says unequal
            kinds = (PyList, tuple, PyDict, Obj, Func, ClassV, T.V)
            if isinstance(a, kinds) and isinstance(b, kinds) and (type(a) is not type(b)):
                r = T.FALSE
                if isinstance(a, T.V) and not T_concrete(a) or isinstance(b, T.V) and not T_concrete(b):
                    r = T.FALSE
                return T.not_(r) if t is ast.NotEq else r
            r = T.lift(a is b or (hasattr(a, "id") and hasattr(b, "id") and a.id == b.id))
            return T.not_(r) if t is ast.NotEq else r
        raise Undecided("comparison at %s" % loc(self.node))

    def contains(self, a, b):
        if isinstance(b, PyDict):
            return T.lift(self.dkey(a) in self.st.heap[b.id])
        if isinstance(b, T.StrL) and isinstance(a, T.StrL):
            x, y = const_str(a), const_str(b)
            if x is not None and y is not None:
                return T.lift(x in y)
            return T.condv(T.atom("opq", "in", a, b))
        if isinstance(b, (PyList, tuple, Arr, Iter)):
            r = T.FALSE
            for x in self.iterate(b):
                r = T.or_(r, self.boolv(self.compare(ast.Eq(), a, x)))
            return r
        if isinstance(b, Obj) and b.cls is None and "__contains__" in self.st.heap[b.id]:
            return self.call(self.st.heap[b.id]["__contains__"], [a], {})
        return T.condv(T.atom("opq", "in", *(self.freeze(a) + self.freeze(b))))

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev_index(e.slice, env)
        self.node = e
        return self.getitem(o, k)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, env)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        return self.ev(s, env)

    def e_Slice(self, s, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return SliceV(f(s.lower), f(s.upper), f(s.step))

    def e_ListComp(self, e, env):
        return self.new_list(self._comp(e, env))

    def e_GeneratorExp(self, e, env):
        return Iter(self._comp(e, env))

    def e_SetComp(self, e, env):
        return self.new_list(self._comp(e, env))

    def e_DictComp(self, e, env):
        d = {}
        ne = self.sub_env(env)

        def rec(k):
            if k == len(e.generators):
                d[self.dkey(self.ev(e.key, ne))] = self.ev(e.value, ne)
                return
            g = e.generators[k]
            for x in self.iterate(self.ev(g.iter, ne)):
                self.assign(g.target, x, ne)
                if self._ifs(g, ne):
                    rec(k + 1)
        rec(0)
        return self.new_dict(d)

    def _ifs(self, g, ne):
        for c in g.ifs:
            v = self.decide(T.truth(self.scalar(self.ev(c, ne))))
            if v is T.FALSE:
                return False
            if v is not T.TRUE:
                raise Undecided("symbolic comprehension filter at %s" % loc(c))
        return True

    def sub_env(self, env):
        i = next(_ids)
        self.st.heap[i] = {"__module__": self.st.heap[env]["__module__"], "__parent__": env}
        self.st.owned.add(i)
        return i

    def _comp(self, e, env):
        out = []
        ne = self.sub_env(env)

        def rec(k):
            if k == len(e.generators):
                out.append(self.ev(e.elt, ne))
                return
            g = e.generators[k]
            for x in self.iterate(self.ev(g.iter, ne)):
                self.assign(g.target, x, ne)
                if self._ifs(g, ne):
                    rec(k + 1)
        rec(0)
        return out

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred at %s" % loc(e))

    # -------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, Iter):
            return list(v.items)
        if isinstance(v, PyList):
            return list(self.st.heap[v.id])
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyDict):
            return [T.lift(k) if not isinstance(k, (T.V, tuple)) else k for k in self.st.heap[v.id]]
        if isinstance(v, Arr):
            if v.idx.ndim == 0:
                raise Undecided("iteration over 0-d array")
            return [self.getitem(v, T.const(k)) for k in range(v.shape[0])]
        if isinstance(v, T.StrL):
            s = const_str(v)
            if s is not None:
                return [T.strl(c) for c in s]
        raise Undecided("iteration over %s at %s" % (type(v).__name__ if not isinstance(v, T.V) else T.show(v), loc(self.node)))

    # -------------------------------------------------------------- items
    def getitem(self, o, k):
        if isinstance(o, Gated):
            return self.lift_gated(lambda x: self.getitem(x, k), o)
        if isinstance(k, Gated):
            return self.lift_gated(lambda x: self.getitem(o, x), k)
        if isinstance(o, Arr):
            return self.arr_get(o, k)
        if isinstance(o, (PyList, tuple, Iter)):
            items = self.iterate(o)
            if isinstance(k, SliceV):
                r = items[self.pyslice(k)]
                return tuple(r) if isinstance(o, tuple) else self.new_list(r)
            i = asint(k)
            if i is not None:
                if not -len(items) <= i < len(items):
                    self.oob.append((self.abs_pc(), self.node))
                    return T.UNDEF
                return items[i]
            return self.pick(k, len(items), lambda j: items[j])
        if isinstance(o, PyDict):
            d = self.st.heap[o.id]
            kk = self.dkey(k)
            if kk in d:
                return d[kk]
            if "__default__" in d:
                return self.call(d["__default__"], [k], {})
            self.raises.append((self.abs_pc(), "KeyError", self.node))
            return T.app("keyerror", T.lift(kk) if not isinstance(kk, tuple) else T.strl("k"))
        if isinstance(o, Obj) and "__getitem__" in self.st.heap[o.id]:
            return self.call(self.st.heap[o.id]["__getitem__"], [k], {})
        if isinstance(o, T.StrL):
            s = const_str(o)
            if s is not None and isinstance(k, SliceV):
                return T.strl(s[self.pyslice(k)])
            if s is not None and asint(k) is not None:
                return T.strl(s[asint(k)])
        if isinstance(o, T.V):
            return T.app("getitem", o, *self.freeze_key(k))
        raise Undecided("subscript of %s at %s" % (type(o).__name__, loc(self.node)))

    def freeze_key(self, k):
        if isinstance(k, SliceV):
            return ("slice",) + tuple(x if x is not None else "none" for x in (k.lo, k.hi, k.step))
        if isinstance(k, tuple):
            return tuple(self.freeze_key(x) for x in k)
        return self.freeze(k)

    def pyslice(self, k):
        def f(x):
            if x is None or x is T.NONE:
                return None
            i = asint(self.scalar(x))
            if i is None:
                raise Undecided("symbolic slice bound at %s" % loc(self.node))
            return i
        return slice(f(k.lo), f(k.hi), f(k.step))

    def _npkey(self, a, k):
        """-> (numpy key, None) or raises _SymIndex"""
        items = k if isinstance(k, tuple) else (k,)
        out = []
        for pos, x in enumerate(items):
            if isinstance(x, SliceV):
                out.append(self.pyslice(x))
            elif x is Ellipsis:
                out.append(Ellipsis)
            elif isinstance(x, T.NoneL):
                out.append(None)
            elif isinstance(x, T.V):
                i = asint(x)
                if i is None:
                    return None, pos
                out.append(i)
            elif isinstance(x, (Arr, PyList)):
                nd = self.nd(x)
                vals = []
                isb = all(isinstance(c, T.BoolL) for c in nd.flat) and nd.size
                for c in nd.flat:
                    i = asint(c)
                    if i is None:
                        raise Undecided("symbolic fancy index at %s" % loc(self.node))
                    vals.append(bool(i) if isb else i)
                out.append(onp.array(vals, dtype=bool if isb else int).reshape(nd.shape))
            else:
                raise Undecided("array index at %s" % loc(self.node))
        return tuple(out), None

    def pick(self, v, n, f):
        """v: symbolic integer V; select f(j), j in range(n)"""
        v = self.decide_val(v)
        cand = self._leaves(v)
        ints = [asint(l) for l in cand]
        if all(i is not None for i in ints):
            def rec(x):
                if isinstance(x, T.Ite):
                    c = T.condv(x.c)
                    return self.choose(c, lambda: rec(x.hi), lambda: rec(x.lo))
                i = asint(x)
                if not -n <= i < n:
                    self.oob.append((self.abs_pc(), self.node))
                    return T.UNDEF
                return f(i if i >= 0 else i + n)
            return rec(v)
        self.oob.append((T.and_(self.abs_pc(), T.not_(T.and_(T.le(T.ZERO, v), T.lt(v, T.const(n))))), self.node))
        r = f(n - 1)
        for j in range(n - 2, -1, -1):
            c = T.eq(v, T.const(j))
            r = self.choose(self.decide(c), (lambda j=j: f(j)), (lambda r=r: r))
        return r

    def decide_val(self, v):
        if not isinstance(v, T.Ite):
            return v
        return self._simplify(v, tuple(self.facts) + self.st.lits)

    def _leaves(self, v, acc=None):
        if acc is None:
            acc = {}
        if isinstance(v, T.Ite):
            if ("n", v.uid) not in acc:
                acc[("n", v.uid)] = None
                self._leaves(v.hi, acc)
                self._leaves(v.lo, acc)
        else:
            acc[v.uid] = v
        return [x for x in acc.values() if x is not None]

    def mask_of(self, a, k):
        """the truth values of a mask of which some are not known, or None"""
        if not isinstance(k, Arr) or k.shape != a.shape or not k.idx.size:
            return None
        nd = self.cells(k)
        if all(isinstance(c, T.BoolL) for c in nd.flat) or not all(isinstance(c, (T.BoolL, T.Ite)) for c in nd.flat):
            return None
        out = onp.empty(nd.shape, dtype=object)
        for ix in onp.ndindex(*nd.shape):
            out[ix] = self.decide(nd[ix])
            if not all(isinstance(z, T.BoolL) for z in self._leaves(out[ix])):
                return None
        return out

    def arr_get(self, a, k):
        m = self.mask_of(a, k)
        if m is not None:
            return Masked(onp.array(self.cells(a), dtype=object), m)
        key, sympos = self._npkey(a, k)
        if key is None:
            items = list(k) if isinstance(k, tuple) else [k]
            dim = self._axis_of(a, items, sympos)
            n = a.shape[dim]

            def f(j):
                it = list(items)
                it[sympos] = T.const(j)
                return self.arr_get(a, tuple(it))
            return self.pick(items[sympos], n, f)
        try:
            sub = a.idx[key]
        except IndexError:
            self.oob.append((self.abs_pc(), self.node))
            # drop the offending scalar axes
            nd = sum(1 for x in key if isinstance(x, int))
            if nd == a.idx.ndim:
                return T.UNDEF
            raise Undecided("index out of bounds at %s" % loc(self.node))
        if not isinstance(sub, onp.ndarray):
            return self.st.heap[a.buf][int(sub)]
        if any(isinstance(x, onp.ndarray) for x in key):
            return self.arr_of(self.cells(Arr(a.buf, sub)))   # fancy: copy
        return Arr(a.buf, sub)

    def _axis_of(self, a, items, pos):
        if Ellipsis in [x for x in items if x is Ellipsis]:
            raise Undecided("ellipsis with symbolic index")
        return sum(1 for x in items[:pos] if not isinstance(x, T.NoneL))

    def store_arr(self, a, nd):
        buf = self._own(a.buf)
        flat = a.idx.reshape(-1)
        vals = nd.reshape(-1)
        if a.buf in self.intbufs:
            vals = [self.as_int(v) for v in vals]
        for p, v in zip(flat, vals):
            buf[int(p)] = v

    def setitem(self, o, k, v):
        if isinstance(o, Gated):
            c = self.decide(o.c)
            self.choose(c, lambda: (self.setitem(o.hi, k, v), T.NONE)[1], lambda: (self.setitem(o.lo, k, v), T.NONE)[1])
            return
        if isinstance(o, Arr):
            return self.arr_set(o, k, v)
        if isinstance(o, PyList):
            if isinstance(k, SliceV):
                self._own(o.id)[self.pyslice(k)] = self.iterate(v)
                return
            i = asint(k)
            l = self._own(o.id)
            if i is None:
                for j in range(len(l)):
                    l[j] = self.mergeval(self.decide(T.eq(k, T.const(j))), v, l[j], (self.st.heap,) * 3)
                return
            l[i] = v
            return
        if isinstance(o, PyDict):
            self._own(o.id)[self.dkey(k)] = v
            return
        if isinstance(o, Obj) and "__setitem__" in self.st.heap[o.id]:
            self.call(self.st.heap[o.id]["__setitem__"], [k, v], {})
            return
        if isinstance(o, T.V):
            self.log("setitem", o, k, v)
            return
        raise Undecided("item store at %s" % loc(self.node))

    def arr_set(self, a, k, v):
        if isinstance(v, Gated):
            c = self.decide(v.c)
            self.choose(c, lambda: (self.arr_set(a, k, v.hi), T.NONE)[1], lambda: (self.arr_set(a, k, v.lo), T.NONE)[1])
            return
        m = self.mask_of(a, k)
        if m is not None and isinstance(v, (T.V, Masked)):
            if isinstance(v, Masked) and not same_mask(v.mask, m):
                raise Undecided("mixed masks at %s" % loc(self.node))
            old = self.cells(a)
            out = onp.empty(m.shape, dtype=object)
            for ix in onp.ndindex(*m.shape):
                out[ix] = T.ite(m[ix], v.nd[ix] if isinstance(v, Masked) else v, old[ix])
            self.store_arr(a, out)
            return
        if isinstance(v, Masked):
            raise Undecided("masked store at %s" % loc(self.node))
        key, sympos = self._npkey(a, k)
        if key is None:
            items = list(k) if isinstance(k, tuple) else [k]
            dim = self._axis_of(a, items, sympos)
            n = a.shape[dim]
            iv = items[sympos]
            self.oob.append((T.and_(self.abs_pc(), T.not_(T.and_(T.le(T.const(-n), iv), T.lt(iv, T.const(n))))), self.node))
            for j in range(n):
                it = list(items)
                it[sympos] = T.const(j)
                c = self.decide(T.or_(T.eq(iv, T.const(j)), T.eq(iv, T.const(j - n))))
                if c is T.FALSE:
                    continue
                old = self.arr_get(a, tuple(it))
                if isinstance(old, T.V):
                    self.arr_set(a, tuple(it), T.ite(c, self.scalar(v), old))
                else:
                    oc = self.cells(old)
                    nv = self.nd(v)
                    nvb = onp.broadcast_to(nv if isinstance(nv, onp.ndarray) else onp.array(nv, dtype=object), oc.shape)
                    out = onp.empty(oc.shape, dtype=object)
                    for ix in onp.ndindex(*oc.shape):
                        out[ix] = T.ite(c, nvb[ix], oc[ix])
                    self.store_arr(old, out)
            return
        try:
            sub = a.idx[key]
        except IndexError:
            self.oob.append((self.abs_pc(), self.node))
            return
        if not isinstance(sub, onp.ndarray):
            if isinstance(v, (Arr, PyList, tuple)):
                v = self.scalar(v) if isinstance(v, Arr) else self.scalar(self.iterate(v)[0])
            if not isinstance(v, T.V):
                raise Undecided("store of %s into array at %s" % (type(v).__name__, loc(self.node)))
            self._own(a.buf)[int(sub)] = self.as_int(v) if a.buf in self.intbufs else v
            return
        nv = self.nd(v)
        z = nv
        if not isinstance(nv, onp.ndarray):
            z = onp.empty((), dtype=object)
            z[()] = nv
        try:
            zb = onp.broadcast_to(z, sub.shape)
        except ValueError:
            if z.size == sub.size:
                zb = z.reshape(sub.shape)
            else:
                self.raises.append((self.abs_pc(), "ValueError", self.node))
                raise Undecided("store shape mismatch %s <- %s at %s" % (sub.shape, z.shape, loc(self.node)))
        self.store_arr(Arr(a.buf, sub), onp.array(zb, dtype=object))

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Gated):
            return self.lift_gated(lambda x: self.getattr(x, name), o)
        if isinstance(o, Obj):
            d = self.st.heap[o.id]
            if name in d and d[name] is not UNBOUND:
                return d[name]
            if o.cls is not None:
                m = self.class_member(o.cls, name)
                if m is not None:
                    if isinstance(m, Func):
                        if m.kind == "staticmethod":
                            return m
                        if m.kind == "property":
                            return self.call(Bound(m, o), [], {})
                        return Bound(m, o)
                    return m
                self.unbound_reads.append((o.cls.name, name, self.node))
                return T.ZERO
            if "__getattr__" in d:
                return self.call(d["__getattr__"], [T.strl(name)], {})
            return T.app("attr", T.strl(name), T.app("obj", T.const(o.id)))
        if isinstance(o, ModV):
            m = o.mod
            sub = self.repo.modules.get(m.name + "." + name)
            if sub is not None and name not in m.funcs and name not in m.assigns:
                return ModV(sub)
            return self.global_name(m, name)
        if isinstance(o, Ext):
            full = o.name + "." + name
            full = CANON.get(full, full)
            from .npmore import EXTCONST
            if full in EXTCONST:
                return EXTCONST[full]
            return Ext(full)
        if isinstance(o, ClassV):
            m = self.class_member(o, name)
            if m is not None:
                return m
            if name == "class_type":
                return T.app("class_type", T.strl(o.name))
        from . import npmodel
        r = npmodel.value_attr(self, o, name)
        if r is not None:
            return r
        if isinstance(o, T.V):
            if name in ("keys", "items", "values", "get", "append") and T.is_const(T.num(o)):
                self.raises.append((self.abs_pc(), "AttributeError", self.node))
                raise Raised("AttributeError %s" % name)
            return T.app("attr", T.strl(name), o)
        raise Undecided("attribute %s of %s at %s" % (name, type(o).__name__, loc(self.node)))

    def class_member(self, cls, name):
        m = cls.members.get(name)
        if m is None:
            for b in cls.node.bases:
                if isinstance(b, ast.Name):
                    try:
                        bc = self.global_name(cls.mod, b.id)
                    except Undecided:
                        continue
                    if isinstance(bc, ClassV):
                        r = self.class_member(bc, name)
                        if r is not None:
                            return r
            return None
        if isinstance(m, tuple):
            v = self.ev(m[1], self.module_env(cls.mod))
            return v
        return m

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if o.cls is not None and name in o.cls.ints:
                v = self.as_int(v)
            self._own(o.id)[name] = v
            return
        if isinstance(o, Gated):
            c = self.decide(o.c)
            self.choose(c, lambda: (self.setattr(o.hi, name, v), T.NONE)[1], lambda: (self.setattr(o.lo, name, v), T.NONE)[1])
            return
        if isinstance(o, (T.V, Ext, ModV)):
            self.log("setattr", o, name, v)
            return
        raise Undecided("attribute store at %s" % loc(self.node))

    # -------------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for kk, vv in self.st.heap[d.id].items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.node = e
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Gated):
            return self.lift_gated(lambda x: self.call(x, args, kw), f)
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, Builtin):
                return f.func.fn(self, [f.self] + args, kw)
            return self.call_func(f.func, [f.self] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            h = self.ext.get(f.name)
            if h is not None:
                return h(self, args, kw)
            from .npmore import EXT, call_ext
            h = EXT.get(f.name)
            if h is not None:
                return call_ext(self, h, f.name, args, kw)
            return self.opaque_call("call:" + f.name, args, kw)
        if isinstance(f, Obj):
            if f.cls is not None:
                return self.call(self.getattr(f, "__call__"), args, kw)
            if "__call__" in self.st.heap[f.id]:
                return self.call(self.st.heap[f.id]["__call__"], args, kw)
        if isinstance(f, T.V):
            return self.opaque_call("callv", [f] + args, kw)
        raise Undecided("call of %s at %s" % (type(f).__name__, loc(self.node)))

    def opaque_call(self, name, args, kw):
        fr = []
        for a in args:
            x = self.freeze(a)
            fr.append(x[0] if len(x) == 1 and isinstance(x[0], T.V) else x)
        for k in sorted(kw):
            fr.append((k,) + self.freeze(kw[k]))
        self.log("call", name, tuple(args), tuple(sorted(kw.items(), key=lambda t: t[0])))
        OPAQUE.setdefault(name if name != "callv" else "callv " + head_of(fr[0]), loc(self.node))
        return T.app(name, *fr)

    def instantiate(self, c, args, kw):
        if c.name in self.overrides:
            return self.call(self.overrides[c.name], args, kw)
        o = self.new_obj({}, c)
        self.created.append(o)
        init = self.class_member(c, "__init__")
        if init is not None:
            self.call_func(init, [o] + args, kw)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(params) and a.vararg is None:
            self.raises.append((self.abs_pc(), "TypeError", self.node))
            raise Undecided("too many arguments to %s at %s" % (f.name, loc(self.node)))
        for p, v in zip(params, args):
            out[p] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(params):])
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwonly:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raises.append((self.abs_pc(), "TypeError", self.node))
                raise Undecided("unexpected keyword %s to %s at %s" % (k, f.name, loc(self.node)))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(extra)
        defs = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defs[p] = d
        for p in params + kwonly:
            if p not in out:
                if p in defs:
                    out[p] = self.ev(defs[p], f.env if f.env is not None else self.module_env(f.mod))
                else:
                    self.raises.append((self.abs_pc(), "TypeError", self.node))
                    raise Undecided("missing argument %s to %s at %s" % (p, f.name, loc(self.node)))
        return out

    def call_func(self, f, args, kw):
        if f.name in self.overrides and f.cls is None:
            return self.call(self.overrides[f.name], args, kw)
        q = (f.cls.name + "." if f.cls else "") + f.name
        if q in self.overrides and f.cls is not None:
            return self.call(self.overrides[q], args, kw)
        if self.depth > 60:
            raise Undecided("call depth at %s" % loc(self.node))
        self.analysed.add((f.mod.path, q))
        node0 = self.node
        sig = self._sigs.get(f.node)
        if sig is None:
            sig = self._sigs[f.node] = sig_ints(f.node)
        if sig[0]:
            args = [self.as_int(v) if k in sig[0] else v for k, v in enumerate(args)]
        b = self.bind(f, args, kw)
        env = next(_ids)
        b["__module__"] = f.mod
        b["__parent__"] = f.env
        self.st.heap[env] = b
        self.st.owned.add(env)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        pc0, lits0 = self.st.pc, self.st.lits
        self.pcs.append(pc0)
        self.st.pc = T.TRUE
        self.depth += 1
        self.stack.append((q, node0))
        try:
            outs = self.exec_block(f.node.body, env, self.st)
        finally:
            self.pcs.pop()
            self.depth -= 1
            self.stack.pop()
        rets = []
        died = False
        for o in outs:
            if o.kind == "fall":
                rets.append(Out("ret", T.NONE, o.st))
            elif o.kind == "ret":
                rets.append(o)
            elif o.kind == "raise":
                died = True
        if not rets:
            raise Raised(q)
        st, val = self.merge_states(rets)
        rel = st.pc
        st.pc = T.and_(pc0, rel) if died else pc0
        if not died:
            st.lits = lits0
        st.heap.pop(env, None) if not self._captured(f.node) else None
        self.st = st
        self.node = node0
        return self.as_int(val) if sig[1] else val

    _sigs = {}
    _capt = {}

    def _captured(self, node):
        r = self._capt.get(node)
        if r is None:
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node for n in ast.walk(node))
            self._capt[node] = r
        return r

    # -------------------------------------------------------------- entry helpers
    def func(self, name, prefer=None):
        m = self.repo.find(name, prefer)
        if m is None:
            raise Anchor("function %s not found in the repository" % name)
        if name in m.funcs:
            return Func(m.funcs[name], m)
        return ClassV(m.classes[name], m)

    def method(self, obj, name):
        return self.getattr(obj, name)

    def inst(self, clsname, attrs, prefer=None):
        """object of a repository class with given attributes (no __init__)"""
        c = self.func(clsname, prefer)
        return self.new_obj({k: self.to_val(v) for k, v in attrs.items()}, c)

    def run(self, f, *args, **kw):
        return self.call(f, [self.to_val(a) for a in args], {k: self.to_val(v) for k, v in kw.items()})


class Raised(Undecided):
    """every path of the callee raises"""


class Anchor(Exception):
    """a construct the property is anchored in no longer exists"""


def T_concrete(v):
    return isinstance(v, (T.StrL, T.NoneL, T.BoolL)) or T.is_const(v)


def floordiv(a, b):
    return T.floor_(T.div(a, b))


BIN = {ast.Add: T.add, ast.Sub: T.sub, ast.Mult: T.mul, ast.Div: T.div, ast.Pow: T.power,
       ast.Mod: T.mod, ast.FloorDiv: floordiv,
       ast.BitAnd: lambda a, b: T.and_(T.truth(a), T.truth(b)),
       ast.BitOr: lambda a, b: T.or_(T.truth(a), T.truth(b))}

CMP = {ast.Eq: T.eq, ast.NotEq: lambda a, b: T.not_(T.eq(a, b)), ast.Lt: T.lt, ast.LtE: T.le,
       ast.Gt: lambda a, b: T.lt(b, a), ast.GtE: lambda a, b: T.le(b, a)}

STDLIB = {"numpy", "math", "scipy", "numba", "h5py", "yaml", "matplotlib", "os", "sys", "time", "pathlib", "ctypes",
          "functools", "itertools", "copy", "warnings", "csv", "sympy", "mpmath", "tqdm", "re", "string", "random"}

CANON = {"np": "numpy"}
