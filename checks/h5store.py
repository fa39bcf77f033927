"""A data file kept as a tree of groups and data sets; paths are string templates (symbolic numbers stay symbolic)."""
from checks.common import *
from sa.interp import Builtin, Raised, SliceV, Obj


def norm(prefix, p):
    """path of template p below prefix: tuple of components, each a tuple of text and symbols"""
    if not isinstance(p, T.StrL):
        raise Undecided("path that is not a string template")
    parts = [[]]
    absolute = bool(p.key) and isinstance(p.key[0], str) and p.key[0].startswith("/")
    for x in p.key:
        if isinstance(x, str):
            bits = x.split("/")
            for i, b in enumerate(bits):
                if i:
                    parts.append([])
                if b:
                    parts[-1].append(b)
        else:
            parts[-1].append(x)
    comps = tuple(tuple(c) for c in parts if c)
    return comps if absolute else prefix + comps


def show(path):
    return "/".join("".join(x if isinstance(x, str) else "<%s>" % (x,) for x in c) for c in path)


class Store:
    def __init__(self):
        self.files = {}

    def install(self, I):
        I.ext["h5py.File"] = lambda I, a, kw: self.node(I, self.files.setdefault(self.name(I, a[0]), {}), ())
        self.opened = []

    def name(self, I, p):
        from sa.interp import const_str
        s = const_str(p if isinstance(p, T.V) else I.scalar(p))
        if s is None:
            raise Undecided("symbolic file name")
        base = s.split("/")[-1]
        self.opened.append(base)
        return base

    def node(self, I, tree, prefix):
        def key(a):
            k = a[0] if isinstance(a[0], (T.V, tuple)) else I.scalar(a[0])
            return norm(prefix, k)

        def kids(p):
            return [q for q in tree if len(q) > len(p) and q[:len(p)] == p]

        def get(I, a, kw):
            p = key(a)
            if p not in tree:
                I.raises.append((I.abs_pc(), "KeyError", I.node))
                I.missing = getattr(I, "missing", []) + [show(p)]
                raise Raised("KeyError %s" % show(p))
            return tree[p] if tree[p] is not None else self.node(I, tree, p)

        def contains(I, a, kw):
            return T.lift(key(a) in tree)

        def put(p, v):
            for i in range(1, len(p)):
                if tree.get(p[:i], None) is not None:
                    raise Undecided("a data set used as a group")
                tree.setdefault(p[:i], None)
            if p in tree:
                I.raises.append((I.abs_pc(), "ValueError", I.node))
                raise Raised("ValueError: name already exists: %s" % show(p))
            tree[p] = v

        def group(I, a, kw):
            p = key(a)
            put(p, None)
            return self.node(I, tree, p)

        def dataset(I, a, kw):
            p = key(a)
            if "data" in kw:
                d = kw["data"]
                c = I.cells(d)
                v = I.arr_of(c.copy())
            else:
                shape = kw.get("shape", a[1] if len(a) > 1 else None)
                n = [T.const_val(I.scalar(x)) for x in I.iterate(shape)] if not isinstance(shape, T.V) else [T.const_val(shape)]
                z = onp.empty(tuple(int(x) for x in n), dtype=object)
                z[...] = T.ZERO
                v = I.arr_of(z)
            put(p, v)
            return v

        def delete(I, a, kw):
            p = key(a)
            if p not in tree:
                I.raises.append((I.abs_pc(), "KeyError", I.node))
                raise Raised("KeyError %s" % show(p))
            for q in kids(p) + [p]:
                del tree[q]
            return None

        def require_group(I, a, kw):
            p = key(a)
            if p not in tree:
                put(p, None)
            return self.node(I, tree, p)
        B = Builtin
        return I.new_obj({"__getitem__": B("get", get), "__contains__": B("contains", contains), "create_group": B("create_group", group),
                          "require_group": B("require_group", require_group), "create_dataset": B("create_dataset", dataset),
                          "__delitem__": B("del", delete), "close": B("close", lambda I, a, kw: None), "flush": B("flush", lambda I, a, kw: None)})
