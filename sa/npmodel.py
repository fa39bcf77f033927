"""Models of python builtins, numpy, math and scipy over value graphs."""
import numpy as onp
from . import terms as T
from .interp import (Arr, PyList, PyDict, Obj, Builtin, Bound, Iter, SliceV, Ext, Undecided, asint, const_str, Gated,
                     ClassV, Func, loc, INT_TYPES)

PI = T.sym("pi")


def shape_arg(I, v):
    if isinstance(v, T.V):
        n = asint(v)
        if n is None:
            raise Undecided("symbolic array shape %s at %s" % (T.show(v), loc(I.node)))
        return (n,)
    out = []
    for x in I.iterate(v):
        n = asint(I.scalar(x))
        if n is None:
            raise Undecided("symbolic array shape at %s" % loc(I.node))
        out.append(n)
    return tuple(out)


def gl(f):
    """lift over gated first argument"""
    def g(I, a, kw):
        if any(isinstance(x, Gated) for x in a):
            return I.lift_gated(lambda *xs: f(I, list(xs), kw), *a)
        return f(I, a, kw)
    return g


def _full(I, shape, v):
    n = 1
    for s in shape:
        n *= s
    return I.new_arr([v] * n, shape)


def int_dtype(I, v):
    """does a dtype argument name an integer type"""
    if isinstance(v, Ext):
        return v.name.split(".")[-1] in INT_TYPES
    if isinstance(v, Builtin):
        return v.name == "int"
    if isinstance(v, T.StrL):
        s = const_str(v) or ""
        return s.startswith(("int", "uint")) or s in ("i", "i4", "i8", "<i8", "u8")
    return False


def as_int_arr(I, r):
    """the integer array with these contents"""
    if isinstance(r, Arr):
        I.intbufs.add(r.buf)
        I.store_arr(r, I.cells(r))
    return r


def typed(f, pos):
    """array constructor whose dtype may be an integer type (argument `pos`, or the dtype keyword)"""
    def g(I, a, kw):
        d = kw.get("dtype", a[pos] if pos is not None and len(a) > pos else None)
        r = f(I, a if pos is None else a[:pos], {k: v for k, v in kw.items() if k != "dtype"})
        if d is not None:
            return as_int_arr(I, r) if int_dtype(I, d) else r
        return r
    return g


def kept(f, pos=None):
    """as typed, but without a dtype argument the result has the type of the first argument"""
    def g(I, a, kw):
        d = kw.get("dtype", a[pos] if pos is not None and len(a) > pos else None)
        x = a[0] if a else None
        r = f(I, a if pos is None else a[:pos], {k: v for k, v in kw.items() if k != "dtype"})
        if not isinstance(r, Arr):
            return r
        if d is not None:
            return as_int_arr(I, r) if int_dtype(I, d) else r
        if isinstance(x, Arr) and x.buf in I.intbufs:
            return as_int_arr(I, r)
        if isinstance(x, PyList) and x.id in I.intlists and all(T.is_const(c) and T.const_val(c).denominator == 1 for c in I.cells(r).flat
                                                                 if isinstance(c, T.Poly)) and all(isinstance(c, T.Poly) for c in I.cells(r).flat):
            return as_int_arr(I, r)
        return r
    return g


def astype(I, a, kw):
    r = I.arr_of(I.cells(a[0]))
    return as_int_arr(I, r) if int_dtype(I, a[1] if len(a) > 1 else kw.get("dtype")) else r


def zeros(I, a, kw):
    return _full(I, shape_arg(I, a[0] if a else kw["shape"]), T.ZERO)


def ones(I, a, kw):
    return _full(I, shape_arg(I, a[0] if a else kw["shape"]), T.ONE)


def full(I, a, kw):
    return _full(I, shape_arg(I, a[0]), I.scalar(a[1] if len(a) > 1 else kw["fill_value"]))


def empty(I, a, kw):
    s = shape_arg(I, a[0])
    n = 1
    for x in s:
        n *= x
    return I.new_arr([T.app("uninit", T.const(k)) for k in range(n)], s)


def like(v):
    def f(I, a, kw):
        x = a[0]
        if isinstance(x, T.V):
            return v
        return _full(I, I.nd(x).shape, v)
    return gl(f)


def array(I, a, kw):
    x = a[0]
    if isinstance(x, T.V):
        return I.new_arr([x], ()) if not isinstance(x, T.Poly) or True else x
    nd = I.nd(x)
    return I.arr_of(onp.array(nd, dtype=object, copy=True))


def asarray(I, a, kw):
    if isinstance(a[0], Arr):
        return a[0]
    return array(I, a, kw)


def copy(I, a, kw):
    x = a[0]
    if isinstance(x, Arr):
        return I.arr_of(I.cells(x))
    if isinstance(x, PyList):
        return I.new_list(I.iterate(x))
    if isinstance(x, PyDict):
        return I.new_dict(I.st.heap[x.id])
    return x


def linspace(I, a, kw):
    lo, hi = I.scalar(a[0]), I.scalar(a[1])
    nv = a[2] if len(a) > 2 else kw.get("num", T.const(50))
    n = asint(I.scalar(nv))
    if n is None:
        raise Undecided("symbolic linspace size at %s" % loc(I.node))
    ep = kw.get("endpoint", a[3] if len(a) > 3 else T.TRUE)
    d = n - 1 if ep is T.TRUE else n
    cells = []
    for k in range(n):
        if d == 0:
            cells.append(lo)
        else:
            cells.append(lo + (hi - lo) * T.const(k) / T.const(d))
    return I.new_arr(cells, (n,))


def arange(I, a, kw):
    return array(I, [brange(I, a, kw)], {})


def _axis(kw, a, pos):
    ax = kw.get("axis", a[pos] if len(a) > pos else None)
    if ax is None or isinstance(ax, T.NoneL):
        return None
    return asint(ax)


def reduce_(f, init):
    def g(I, a, kw):
        x = a[0]
        if isinstance(x, T.V):
            return x
        nd = I.nd(x)
        ax = _axis(kw, a, 1)
        if ax is None:
            it = list(nd.flat)
            if init is not None:
                r = init
            else:
                if not it:
                    raise Undecided("reduction of empty array at %s" % loc(I.node))
                r = it.pop(0)
            for c in it:
                r = f(r, c)
            return r
        moved = onp.moveaxis(nd, ax, 0)
        out = onp.empty(moved.shape[1:], dtype=object)
        for ix in onp.ndindex(*out.shape):
            it = [moved[(k,) + ix] for k in range(moved.shape[0])]
            r = init if init is not None else it.pop(0)
            for c in it:
                r = f(r, c)
            out[ix] = r
        return I.arr_of(out)
    return gl(g)


npsum = reduce_(T.add, T.ZERO)
npprod = reduce_(T.mul, T.ONE)
npmax = reduce_(T.max_, None)
npmin = reduce_(T.min_, None)
npany = reduce_(lambda x, y: T.or_(x, T.truth(y)), T.FALSE)
npall = reduce_(lambda x, y: T.and_(x, T.truth(y)), T.TRUE)


def mean(I, a, kw):
    x = a[0]
    if isinstance(x, T.V):
        return x
    nd = I.nd(x)
    ax = _axis(kw, a, 1)
    n = nd.size if ax is None else nd.shape[ax]
    s = npsum(I, a, kw)
    return I.ew(lambda v: v / T.const(n), s)


def e1(f):
    return gl(lambda I, a, kw: I.ew(f, a[0]))


def e2(f):
    return gl(lambda I, a, kw: I.ew(f, a[0], a[1]))


def fn1(name):
    return e1(lambda v: T.func(name, v))


def npdot(I, a, kw):
    return dot(I, a[0], a[1])


def dot(I, x, y):
    if isinstance(x, Gated) or isinstance(y, Gated):
        return I.lift_gated(lambda p, q: dot(I, p, q), x, y)
    if isinstance(x, T.V) or isinstance(y, T.V):
        return I.ew(T.mul, x, y)
    p, q = I.nd(x), I.nd(y)

    def s(u, v):
        r = T.ZERO
        for i, j in zip(u, v):
            r = r + i * j
        return r
    if p.shape[-1] != q.shape[-2 if q.ndim > 1 else 0]:
        I.raises.append((I.abs_pc(), "ValueError", I.node))
        raise Undecided("dot shape mismatch at %s" % loc(I.node))
    if p.ndim == 1 and q.ndim == 1:
        return s(p, q)
    if p.ndim == 2 and q.ndim == 1:
        return I.arr_of(onp.array([s(r, q) for r in p] + [None], dtype=object)[:-1])
    if p.ndim == 1 and q.ndim == 2:
        return I.arr_of(onp.array([s(p, q[:, k]) for k in range(q.shape[1])] + [None], dtype=object)[:-1])
    if p.ndim == 2 and q.ndim == 2:
        out = onp.empty((p.shape[0], q.shape[1]), dtype=object)
        for i in range(p.shape[0]):
            for j in range(q.shape[1]):
                out[i, j] = s(p[i], q[:, j])
        return I.arr_of(out)
    raise Undecided("dot of %sd/%sd" % (p.ndim, q.ndim))


def minv_cells(nd):
    n = nd.shape[0]
    out = onp.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = T.inv(nd[0, 0])
        return out
    # diagonal matrices invert entrywise
    if all(isinstance(nd[i, j], T.Poly) and nd[i, j].key == () for i in range(n) for j in range(n) if i != j):
        for i in range(n):
            for j in range(n):
                out[i, j] = T.inv(nd[i, i]) if i == j else T.ZERO
        return out
    cells = tuple(nd.flat)
    for i in range(n):
        for j in range(n):
            out[i, j] = T.app("minv", T.const(i), T.const(j), *cells)
    return out


def linalg_inv(I, a, kw):
    return I.arr_of(minv_cells(I.nd(a[0])))


def linalg_solve(I, a, kw):
    return dot(I, linalg_inv(I, a, kw), a[1])


def searchsorted(I, a, kw):
    """index of insertion into a (sorted) array of known length"""
    arr, v = I.nd(a[0]), a[1]
    side = kw.get("side", a[2] if len(a) > 2 else T.strl("left"))
    left = const_str(side) != "right"

    def f(x):
        r = T.const(arr.shape[0])
        for k in range(arr.shape[0] - 1, -1, -1):
            c = T.le(x, arr[k]) if left else T.lt(x, arr[k])
            r = T.ite(I.decide(c), T.const(k), r)
        return r
    return I.ew(f, v)


def argmin(I, a, kw, less=T.lt):
    nd = I.nd(a[0]).reshape(-1)
    best, bi = nd[0], T.ZERO
    for k in range(1, nd.size):
        c = less(nd[k], best)
        bi = T.ite(c, T.const(k), bi)
        best = T.ite(c, nd[k], best)
    return bi


def argmax(I, a, kw):
    return argmin(I, a, kw, lambda x, y: T.lt(y, x))


def npsort(I, a, kw):
    nd = I.nd(a[0])
    if nd.ndim != 1:
        raise Undecided("sort of %dd" % nd.ndim)
    items = list(nd)
    out = []
    ok = True
    for x in items:
        pos = len(out)
        for k in range(len(out)):
            c = I.decide(T.le(x, out[k]))
            if c is T.TRUE:
                pos = k
                break
            if c is not T.FALSE:
                ok = False
                break
        if not ok:
            break
        out.insert(pos, x)
    if not ok:
        cells = tuple(sorted(items, key=lambda v: v.uid))
        out = [T.app("sorted", T.const(k), *cells) for k in range(len(items))]
    return I.new_arr(out, (len(items),))


def append(I, a, kw):
    x, y = a[0], a[1]
    p = I.nd(x).reshape(-1)
    q = I.nd(y)
    q = q.reshape(-1) if isinstance(q, onp.ndarray) else [q]
    cells = list(p) + list(q)
    return I.new_arr(cells, (len(cells),))


def concatenate(I, a, kw):
    parts = [I.nd(x) for x in I.iterate(a[0])]
    ax = _axis(kw, a, 1) or 0
    return I.arr_of(onp.concatenate(parts, axis=ax))


def stack(axisdef):
    def f(I, a, kw):
        parts = [I.nd(x) for x in I.iterate(a[0])]
        return I.arr_of(onp.stack(parts, axis=asint(kw["axis"]) if "axis" in kw else axisdef))
    return f


def flip(I, a, kw):
    x = a[0]
    if isinstance(x, Arr):
        ax = _axis(kw, a, 1)
        return Arr(x.buf, onp.flip(x.idx, ax))
    return I.arr_of(onp.flip(I.nd(x)))


def transpose(I, a, kw):
    x = a[0]
    if isinstance(x, Arr):
        return Arr(x.buf, x.idx.T)
    return I.arr_of(I.nd(x).T)


def reshape(I, a, kw):
    x = a[0]
    sh = a[1] if len(a) == 2 else tuple(a[1:])
    sh = shape_arg(I, sh) if not (isinstance(sh, tuple) and False) else sh
    if not isinstance(x, Arr):
        x = array(I, [x], {})
    try:
        return Arr(x.buf, x.idx.reshape(sh))
    except ValueError:
        I.raises.append((I.abs_pc(), "ValueError", I.node))
        raise Undecided("reshape mismatch at %s" % loc(I.node))


def where(I, a, kw):
    if len(a) == 3:
        return I.ew(lambda c, x, y: T.ite(T.truth(c), x, y), *a)
    raise Undecided("np.where with one argument")


def heaviside(I, a, kw):
    return I.ew(lambda x, h: T.ite(T.lt(x, T.ZERO), T.ZERO, T.ite(T.eq(x, T.ZERO), h, T.ONE)), a[0], a[1])


def identity(I, a, kw):
    n = asint(a[0])
    out = onp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = T.ONE if i == j else T.ZERO
    return I.arr_of(out)


def leggauss(I, a, kw):
    n = asint(I.scalar(a[0]))
    if n is None:
        raise Undecided("symbolic quadrature order at %s" % loc(I.node))
    if n == 1:
        return (I.new_arr([T.ZERO], (1,)), I.new_arr([T.const(2)], (1,)))
    xs = I.new_arr([T.sym("leg_x", T.const(n), T.const(k)) for k in range(n)], (n,))
    ws = I.new_arr([T.sym("leg_w", T.const(n), T.const(k)) for k in range(n)], (n,))
    return (xs, ws)


def diff_(I, a, kw):
    nd = I.nd(a[0])
    return I.arr_of(onp.array([nd[k + 1] - nd[k] for k in range(len(nd) - 1)] + [None], dtype=object)[:-1])


def round_(I, a, kw):
    d = a[1] if len(a) > 1 else kw.get("ndigits", kw.get("decimals", T.ZERO))
    return I.ew(lambda x: x if (T.is_const(x) and T.const_val(x).denominator == 1) else T.func("round", x, d), a[0])


def isclose(I, a, kw):
    return I.ew(lambda x, y: T.eq(x, y), a[0], a[1])


def floor(I, a, kw):
    return I.ew(T.floor_, a[0])


def allclose(I, a, kw):
    r = I.ew(lambda x, y: T.eq(x, y), a[0], a[1])
    return npall(I, [r], {})


EXT = {}
EXTCONST = {"numpy.pi": PI, "math.pi": PI, "numpy.newaxis": T.NONE, "numpy.inf": T.sym("inf"), "math.inf": T.sym("inf"),
            "math.e": T.exp(T.ONE), "numpy.e": T.exp(T.ONE), "scipy.pi": PI, "numpy.nan": T.sym("nan")}


def _reg():
    n = "numpy."
    E = EXT
    E.update({n + "zeros": typed(zeros, 1), n + "ones": typed(ones, 1), n + "full": typed(full, 2), n + "empty": typed(empty, 1), n + "zeros_like": kept(like(T.ZERO), 1),
              n + "ones_like": kept(like(T.ONE), 1), n + "empty_like": kept(like(T.ZERO), 1), n + "array": kept(gl(array), 1), n + "asarray": kept(gl(asarray), 1), n + "copy": kept(gl(copy)),
              n + "linspace": linspace, n + "arange": arange, n + "sum": npsum, n + "prod": npprod, n + "max": npmax,
              n + "min": npmin, n + "amax": npmax, n + "amin": npmin, n + "any": npany, n + "all": npall, n + "mean": mean,
              n + "sqrt": e1(T.sqrt), n + "exp": e1(T.exp), n + "abs": e1(T.abs_), n + "absolute": e1(T.abs_), n + "fabs": e1(T.abs_),
              n + "multiply": e2(T.mul), n + "add": e2(T.add), n + "subtract": e2(T.sub), n + "divide": e2(T.div),
              n + "power": e2(T.power), n + "float_power": e2(T.power), n + "square": e1(lambda x: x * x),
              n + "negative": e1(T.neg), n + "reciprocal": e1(T.inv),
              n + "maximum": e2(T.max_), n + "minimum": e2(T.min_), n + "fmax": e2(T.max_), n + "fmin": e2(T.min_),
              n + "greater": e2(lambda x, y: T.lt(y, x)),
              n + "less": e2(T.lt), n + "greater_equal": e2(lambda x, y: T.le(y, x)), n + "less_equal": e2(T.le),
              n + "equal": e2(T.eq), n + "logical_and": e2(lambda x, y: T.and_(T.truth(x), T.truth(y))),
              n + "logical_or": e2(lambda x, y: T.or_(T.truth(x), T.truth(y))), n + "logical_not": e1(lambda x: T.not_(T.truth(x))),
              n + "dot": npdot, n + "matmul": npdot, n + "inner": npdot, n + "linalg.inv": linalg_inv, n + "linalg.solve": linalg_solve,
              n + "searchsorted": searchsorted, n + "argmin": argmin, n + "argmax": argmax, n + "sort": npsort, n + "append": append,
              n + "concatenate": concatenate, n + "hstack": concatenate, n + "stack": stack(0), n + "vstack": stack(0),
              n + "flip": flip, n + "flipud": flip, n + "transpose": transpose, n + "reshape": reshape, n + "where": where,
              n + "heaviside": heaviside, n + "identity": identity, n + "eye": identity,
              n + "polynomial.legendre.leggauss": leggauss, "scipy.special.roots_legendre": leggauss,
              n + "diff": diff_, n + "round": round_, n + "isclose": isclose, n + "allclose": allclose, n + "floor": floor,
              n + "float64": bfloat, n + "int64": bint, n + "ravel": lambda I, a, kw: reshape(I, [a[0], T.const(-1)], {}),
              n + "atleast_1d": lambda I, a, kw: a[0] if isinstance(a[0], Arr) and a[0].idx.ndim else I.new_arr([I.scalar(a[0])], (1,)),
              n + "size": lambda I, a, kw: T.const(I.nd(a[0]).size if not isinstance(a[0], T.V) else 1),
              n + "shape": lambda I, a, kw: tuple(T.const(s) for s in I.nd(a[0]).shape),
              n + "clip": lambda I, a, kw: I.ew(lambda x, l, h: T.min_(T.max_(x, l), h), a[0], a[1], a[2]),
              n + "sign": e1(lambda x: T.ite(T.lt(T.ZERO, x), T.ONE, T.ite(T.eq(x, T.ZERO), T.ZERO, T.const(-1)))),
              n + "isnan": e1(lambda x: T.func("isnan", x)),
              n + "outer": lambda I, a, kw: I.ew(T.mul, reshape(I, [a[0], (T.const(-1), T.ONE)], {}), a[1]),
              })
    for m in ("math.", "numpy."):
        for f in ("sin", "cos", "tan", "log", "log10", "log2", "sinh", "cosh", "tanh", "arctan", "arcsin", "arccos",
                  "atan", "asin", "acos", "ceil", "gamma", "expm1", "log1p", "cbrt"):
            EXT[m + f] = fn1({"atan": "arctan", "asin": "arcsin", "acos": "arccos"}.get(f, f))
    E.update({"math.sqrt": e1(T.sqrt), "math.exp": e1(T.exp), "math.fabs": e1(T.abs_), "math.pow": e2(T.power),
              "math.erf": fn1("erf"), "math.erfc": e1(lambda x: T.ONE - T.func("erf", x)), "math.floor": e1(T.floor_),
              "math.factorial": fn1("factorial"), "math.fsum": npsum, "math.isclose": isclose,
              "math.copysign": e2(lambda x, y: T.ite(T.lt(y, T.ZERO), T.neg(T.abs_(x)), T.abs_(x))),
              "scipy.special.erf": fn1("erf"), "scipy.special.expi": fn1("expi"),
              "scipy.special.eval_legendre": e2(T.legendre), "scipy.special.factorial": fn1("factorial"),
              "copy.deepcopy": copy, "copy.copy": copy,
              "os.path.join": lambda I, a, kw: join(a), "pathlib.Path": lambda I, a, kw: a[0] if a else T.strl("."),
              "os.path.dirname": lambda I, a, kw: T.apply1("dirname", lambda x: T.strl(T.app("dirname", x)), a[0]),
              "os.path.abspath": lambda I, a, kw: a[0],
              "numba.extending.get_cython_function_address": lambda I, a, kw: T.app("addr", a[0], a[1]),
              "ctypes.CFUNCTYPE": lambda I, a, kw: Builtin("cfunctype", cfactory),
              "numba.typed.Dict.empty": lambda I, a, kw: I.new_dict(),
              "numba.prange": brange, "functools.partial": partial,
              "warnings.warn": lambda I, a, kw: T.NONE, "time.time": lambda I, a, kw: T.sym("walltime"),
              "timeit.default_timer": lambda I, a, kw: T.sym("walltime")})


def join(a):
    r = a[0]
    for x in a[1:]:
        r = T.add(T.add(r, T.strl("/")), x)
    return r


def partial(I, a, kw):
    f, pre = a[0], list(a[1:])

    def g(I, b, k2):
        k = dict(kw)
        k.update(k2)
        return I.call(f, pre + list(b), k)
    return Builtin("partial", g)


def cfactory(I, a, kw):
    v = a[0]
    at = T.single_atom(v)
    name = const_str(at.args[2]) or ""
    if "eval_legendre" in name:
        return Builtin("eval_legendre", lambda I, b, k: I.ew(T.legendre, b[0], b[1]))
    if "expi" in name:
        return Builtin("expi", lambda I, b, k: I.ew(lambda x: T.func("expi", x), b[0]))
    if "erf" in name:
        return Builtin("erf", lambda I, b, k: I.ew(lambda x: T.func("erf", x), b[0]))
    return Builtin("cfun", lambda I, b, k: I.opaque_call("cfun:" + name, b, k))


# ---------------------------------------------------------------- builtins

def brange(I, a, kw):
    ints = []
    for x in a:
        v = I.decide_val(I.scalar(x))
        n = asint(v)
        if n is None:
            raise Undecided("symbolic range bound %s at %s" % (T.show(v)[:80], loc(I.node)))
        ints.append(n)
    return Iter([T.const(k) for k in range(*ints)])


def blen(I, a, kw):
    x = a[0]
    if isinstance(x, Arr):
        return T.const(x.shape[0])
    if isinstance(x, T.V):
        s = const_str(x)
        if s is not None:
            return T.const(len(s))
        return T.app("len", x)
    if isinstance(x, Gated):
        return I.lift_gated(lambda y: blen(I, [y], kw), x)
    return T.const(len(I.iterate(x)))


def babs(I, a, kw):
    return I.ew(T.abs_, a[0])


def bmm(f):
    def g(I, a, kw):
        items = a if len(a) > 1 else I.iterate(a[0])
        items = [I.scalar(x) for x in items]
        r = items[0]
        for x in items[1:]:
            r = f(r, x)
        return r
    return g


def bint(I, a, kw):
    v = a[0] if a else T.ZERO

    def f(x):
        if isinstance(x, T.StrL):
            s = const_str(x)
            if s is not None:
                try:
                    return T.const(int(s))
                except ValueError:
                    pass
            return T.app("int", x)
        if isinstance(x, T.BoolL):
            return T.num(x)
        p = T.num(x)
        if T.is_const(p):
            return T.const(int(T.const_val(p)))
        return T.int_(p)
    if isinstance(v, Arr):
        return I.ew(lambda x: T.apply1("int", f, x), v) if v.idx.size > 1 else T.apply1("int", f, I.scalar(v))
    return T.apply1("int", f, I.scalar(v))


def bfloat(I, a, kw):
    v = a[0] if a else T.ZERO

    def f(x):
        if isinstance(x, T.BoolL):
            return T.num(x)
        if isinstance(x, T.StrL):
            s = const_str(x)
            if s is not None:
                try:
                    return T.const(T.rat_of_float(float(s)))
                except ValueError:
                    pass
            return T.app("float", x)
        return x
    if isinstance(v, Arr):
        return I.ew(lambda x: T.apply1("float", f, x), v)
    return T.apply1("float", f, I.scalar(v))


def bstr(I, a, kw):
    return I.tostr(a[0]) if a else T.strl("")


def bbool(I, a, kw):
    return T.truth(I.scalar(a[0])) if a else T.FALSE


def blist(I, a, kw):
    if a and isinstance(a[0], T.V) and not isinstance(a[0], T.StrL):
        return a[0]
    return I.new_list(I.iterate(a[0]) if a else [])


def btuple(I, a, kw):
    return tuple(I.iterate(a[0])) if a else ()


def bdict(I, a, kw):
    d = {}
    if a:
        if isinstance(a[0], PyDict):
            d.update(I.st.heap[a[0].id])
        else:
            for p in I.iterate(a[0]):
                k, v = I.iterate(p)
                d[I.dkey(k)] = v
    d.update(kw)
    return I.new_dict(d)


def benum(I, a, kw):
    s = asint(a[1]) if len(a) > 1 else (asint(kw["start"]) if "start" in kw else 0)
    return Iter([(T.const(k + s), x) for k, x in enumerate(I.iterate(a[0]))])


def bzip(I, a, kw):
    return Iter([tuple(t) for t in zip(*[I.iterate(x) for x in a])])


def bsum(I, a, kw):
    r = a[1] if len(a) > 1 else kw.get("start", T.ZERO)
    import ast
    for x in I.iterate(a[0]):
        r = I.binop(ast.Add(), r, x)
    return r


def bmap(I, a, kw):
    cols = [I.iterate(x) for x in a[1:]]
    return Iter([I.call(a[0], list(t), {}) for t in zip(*cols)])


def bisinstance(I, a, kw):
    x, c = a
    names = {Builtin: None}
    if isinstance(x, T.V):
        cn = c.name if isinstance(c, (Builtin, Ext, ClassV)) else ""
        if isinstance(x, T.StrL):
            return T.lift(cn == "str")
        if isinstance(x, T.NoneL):
            return T.FALSE
        return T.condv(T.atom("opq", "isinstance", x, cn))
    if isinstance(x, Obj) and isinstance(c, ClassV):
        return T.lift(x.cls is not None and x.cls.name == c.name)
    if isinstance(x, PyList):
        return T.lift(isinstance(c, Builtin) and c.name == "list")
    if isinstance(x, PyDict):
        return T.lift(isinstance(c, Builtin) and c.name == "dict")
    return T.FALSE


def bsorted(I, a, kw):
    return I.new_list(I.iterate(npsort(I, [a[0]], {})))


def bany(I, a, kw):
    r = T.FALSE
    for x in I.iterate(a[0]):
        r = T.or_(r, I.boolv(x))
    return r


def ball(I, a, kw):
    r = T.TRUE
    for x in I.iterate(a[0]):
        r = T.and_(r, I.boolv(x))
    return r


def bgetattr(I, a, kw):
    return I.getattr(a[0], const_str(a[1]))


def bsetattr(I, a, kw):
    I.setattr(a[0], const_str(a[1]), a[2])
    return T.NONE


def bhasattr(I, a, kw):
    o, n = a[0], const_str(a[1])
    if isinstance(o, Obj):
        return T.lift(n in I.st.heap[o.id] or (o.cls is not None and I.class_member(o.cls, n) is not None))
    return T.FALSE


_B = {"range": brange, "prange": brange, "len": blen, "abs": babs, "min": bmm(T.min_), "max": bmm(T.max_), "int": bint,
      "float": bfloat, "str": bstr, "bool": bbool, "list": blist, "tuple": btuple, "dict": bdict, "enumerate": benum,
      "zip": bzip, "sum": bsum, "map": bmap, "isinstance": bisinstance, "sorted": bsorted, "any": bany, "all": ball,
      "print": lambda I, a, kw: T.NONE, "round": round_, "reversed": lambda I, a, kw: Iter(list(reversed(I.iterate(a[0])))),
      "getattr": bgetattr, "setattr": bsetattr, "hasattr": bhasattr, "set": blist, "pow": e2(T.power),
      "repr": bstr, "iter": lambda I, a, kw: a[0], "type": lambda I, a, kw: T.app("type", *I.freeze(a[0])),
      "divmod": lambda I, a, kw: (T.floor_(a[0] / a[1]), T.mod(a[0], a[1])),
      "callable": lambda I, a, kw: T.lift(isinstance(a[0], (Func, Builtin, Bound)))}
BUILTINS = {k: Builtin(k, v) for k, v in _B.items()}
for _n in ("Exception", "ValueError", "TypeError", "KeyError", "RuntimeError", "FileNotFoundError", "NotImplementedError",
           "IndexError", "OSError", "AssertionError", "object", "ZeroDivisionError", "AttributeError"):
    BUILTINS[_n] = Ext(_n)
BUILTINS["__file__"] = T.strl(T.sym("__file__"))
BUILTINS["__name__"] = T.strl("module")

_reg()


# ---------------------------------------------------------------- methods

def _m(o, f):
    return Bound(Builtin("m", f), o)


ARR_METHODS = {"sum": npsum, "prod": npprod, "max": npmax, "min": npmin, "mean": mean, "any": npany, "all": npall,
               "copy": kept(copy), "transpose": transpose, "reshape": reshape, "dot": npdot, "flatten": lambda I, a, kw: copy(I, [reshape(I, [a[0], T.const(-1)], {})], {}),
               "ravel": lambda I, a, kw: reshape(I, [a[0], T.const(-1)], {}), "astype": astype,
               "tolist": lambda I, a, kw: I.new_list(I.iterate(a[0])), "argmin": argmin, "argmax": argmax,
               "fill": lambda I, a, kw: (I.arr_set(a[0], (Ellipsis,), a[1]), T.NONE)[1],
               "searchsorted": searchsorted, "item": lambda I, a, kw: I.scalar(a[0]),
               "sort": lambda I, a, kw: (I.store_arr(a[0], I.cells(npsort(I, [a[0]], {}))), T.NONE)[1],
               "clip": lambda I, a, kw: I.ew(lambda x, l, h: T.min_(T.max_(x, l), h), a[0], a[1], a[2])}


def l_append(I, a, kw):
    I._own(a[0].id).append(a[1])
    return T.NONE


def l_extend(I, a, kw):
    I._own(a[0].id).extend(I.iterate(a[1]))
    return T.NONE


def l_insert(I, a, kw):
    I._own(a[0].id).insert(asint(a[1]), a[2])
    return T.NONE


def l_pop(I, a, kw):
    return I._own(a[0].id).pop(asint(a[1]) if len(a) > 1 else -1)


def l_index(I, a, kw):
    items = I.iterate(a[0])
    import ast
    r = T.const(len(items))
    for k in range(len(items) - 1, -1, -1):
        r = T.ite(I.decide(I.boolv(I.compare(ast.Eq(), items[k], a[1]))), T.const(k), r)
    return r


def d_get(I, a, kw):
    d = I.st.heap[a[0].id]
    k = I.dkey(a[1])
    if k in d:
        return d[k]
    return a[2] if len(a) > 2 else T.NONE


def d_update(I, a, kw):
    I._own(a[0].id).update(I.st.heap[a[1].id])
    return T.NONE


def d_pop(I, a, kw):
    d = I._own(a[0].id)
    k = I.dkey(a[1])
    return d.pop(k, a[2] if len(a) > 2 else T.NONE)


LIST_METHODS = {"append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "index": l_index,
                "copy": copy, "reverse": lambda I, a, kw: (I._own(a[0].id).reverse(), T.NONE)[1]}
DICT_METHODS = {"get": d_get, "update": d_update, "pop": d_pop, "copy": copy,
                "keys": lambda I, a, kw: Iter(I.iterate(a[0])),
                "values": lambda I, a, kw: Iter(list(I.st.heap[a[0].id].values())),
                "items": lambda I, a, kw: Iter([(T.lift(k) if not isinstance(k, (T.V, tuple)) else k, v) for k, v in I.st.heap[a[0].id].items()])}


def s_join(I, a, kw):
    items = I.iterate(a[1])
    r = T.strl("")
    for k, x in enumerate(items):
        if k:
            r = T.add(r, a[0])
        r = T.add(r, x)
    return r


def s_fmt(I, a, kw):
    s = const_str(a[0])
    if s is None:
        return T.strl(T.app("format", *[x for y in a for x in I.freeze(y)]))
    import string
    r = T.strl("")
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        r = T.add(r, T.strl(lit))
        if field is None:
            continue
        if field == "":
            v = a[1 + auto]
            auto += 1
        elif field.isdigit():
            v = a[1 + int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Undecided("format field")
        r = T.add(r, I.tostr(v))
    return r


def s_const(fname):
    def f(I, a, kw):
        ss = [const_str(x) for x in a]
        if all(s is not None for s in ss):
            r = getattr(ss[0], fname)(*ss[1:])
            return I.to_val(r)
        if fname in ("startswith", "endswith") and len(a) == 2 and ss[1] is not None and isinstance(a[0], T.StrL) and a[0].key:
            # a template decides as far as its literal text at that end goes
            lit = a[0].key[0 if fname == "startswith" else -1]
            if isinstance(lit, str):
                n = min(len(lit), len(ss[1]))
                same = lit[:n] == ss[1][:n] if fname == "startswith" else n == 0 or lit[-n:] == ss[1][-n:]
                if not same:
                    return T.FALSE
                if len(ss[1]) <= len(lit):
                    return T.TRUE
        return T.app("str." + fname, *a) if fname in ("startswith", "endswith") else T.strl(T.app("str." + fname, *a))
    return f


STR_METHODS = {"join": s_join, "format": s_fmt}
for _n in ("replace", "strip", "lower", "upper", "startswith", "endswith", "split", "lstrip", "rstrip"):
    STR_METHODS[_n] = s_const(_n)


def value_attr(I, o, name):
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(T.const(s) for s in o.shape)
        if name == "size":
            return T.const(int(o.idx.size))
        if name == "ndim":
            return T.const(o.idx.ndim)
        if name == "T":
            return Arr(o.buf, o.idx.T)
        if name == "dtype":
            return T.sym("dtype")
        if name in ARR_METHODS:
            return _m(o, ARR_METHODS[name])
    if isinstance(o, PyList) and name in LIST_METHODS:
        return _m(o, LIST_METHODS[name])
    if isinstance(o, PyList) and name == "size":
        return T.const(len(I.iterate(o)))
    if isinstance(o, PyDict) and name in DICT_METHODS:
        return _m(o, DICT_METHODS[name])
    if isinstance(o, T.StrL):
        if name in STR_METHODS:
            return _m(o, STR_METHODS[name])
        if name in ("parent", "parents"):
            return T.strl(T.app("parent", o)) if name == "parent" else T.app("parents", o)
        if name in ("resolve", "absolute"):
            return _m(o, lambda I, a, kw: a[0])
    if isinstance(o, T.V) and not isinstance(o, (T.StrL, T.NoneL)):
        if name == "copy":
            return _m(o, copy)
        if name in ("any", "all"):
            return _m(o, lambda I, a, kw: T.truth(a[0]))
        if name == "sum":
            return _m(o, lambda I, a, kw: a[0])
    return None
