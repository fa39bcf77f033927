"""Models of further numpy, math, itertools, functools and operator functions."""
import ast
import itertools
import numpy as onp
from . import terms as T
from .interp import Arr, PyList, PyDict, Builtin, Iter, Undecided, asint, const_str, Gated, loc
from .npmodel import (EXT, EXTCONST, ARR_METHODS, LIST_METHODS, DICT_METHODS, STR_METHODS, BUILTINS, e1, e2, gl, dot, reduce_, npsum, npprod,
                      _axis, _full, shape_arg, stack, concatenate, reshape, array, copy, transpose, npmax, npmin, npany, npall, brange, _m, leggauss)


def ints(I, v):
    if isinstance(v, T.V) and not isinstance(v, T.StrL):
        n = asint(I.scalar(v))
        if n is None:
            raise Undecided("symbolic axis or size at %s" % loc(I.node))
        return n
    return tuple(asint(I.scalar(x)) for x in I.iterate(v))


def wrap(f):
    """function on numpy object arrays -> model"""
    def g(I, a, kw):
        return I.arr_of(f(I, I.nd_arr(a[0]), a[1:], kw))
    return gl(g)


def tensordot(I, a, kw):
    x, y = I.nd_arr(a[0]), I.nd_arr(a[1])
    ax = kw.get("axes", a[2] if len(a) > 2 else T.const(2))
    if isinstance(ax, T.V):
        n = asint(ax)
        ax = (list(range(x.ndim - n, x.ndim)), list(range(n)))
    else:
        p, q = I.iterate(ax)
        ax = [[z] if isinstance(z, int) else list(z) for z in (ints(I, p), ints(I, q))]
    r = onp.tensordot(x, y, axes=ax)
    return I.arr_of(r) if r.ndim else lift(r[()])


def lift(v):
    return v if isinstance(v, T.V) else T.lift(v)


def einsum(I, a, kw):
    s = const_str(a[0])
    if s is None:
        raise Undecided("einsum without a literal subscript")
    s = s.replace(" ", "")
    ops = [I.nd_arr(x) for x in a[1:]]
    ins, _, out = s.partition("->")
    ins = ins.split(",")
    if "." in s or len(ins) != len(ops):
        raise Undecided("einsum subscript %s" % s)
    if "->" not in s:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    size = {}
    for sub, o in zip(ins, ops):
        if len(sub) != o.ndim:
            raise Undecided("einsum rank")
        for c, n in zip(sub, o.shape):
            if size.setdefault(c, n) != n:
                I.raises.append((I.abs_pc(), "ValueError", I.node))
                raise Undecided("einsum sizes")
    rest = [c for c in size if c not in out]
    res = onp.empty([size[c] for c in out], dtype=object)
    for ix in onp.ndindex(*res.shape):
        env = dict(zip(out, ix))
        r = T.ZERO
        for jx in itertools.product(*[range(size[c]) for c in rest]):
            env.update(zip(rest, jx))
            p = T.ONE
            for sub, o in zip(ins, ops):
                p = p * o[tuple(env[c] for c in sub)]
            r = r + p
        res[ix] = r
    return I.arr_of(res) if out else res[()]


def cumulate(f):
    def g(I, a, kw):
        nd = I.nd_arr(a[0])
        ax = _axis(kw, a, 1)
        if ax is None:
            nd, ax = nd.reshape(-1), 0
        out = onp.empty(nd.shape, dtype=object)
        src, dst = onp.moveaxis(nd, ax, 0), onp.moveaxis(out, ax, 0)
        for k in range(src.shape[0]):
            for ix in onp.ndindex(*src.shape[1:]):
                dst[(k,) + ix] = src[(k,) + ix] if k == 0 else f(dst[(k - 1,) + ix], src[(k,) + ix])
        return I.arr_of(out)
    return gl(g)


def trapz(I, a, kw):
    y = I.nd_arr(a[0])
    x = kw.get("x", a[1] if len(a) > 1 else None)
    xs = I.nd_arr(x) if x is not None and not isinstance(x, T.NoneL) else None
    dx = I.scalar(kw["dx"]) if "dx" in kw else T.ONE
    r = T.ZERO
    for k in range(y.shape[0] - 1):
        h = xs[k + 1] - xs[k] if xs is not None else dx
        r = r + h * (y[k + 1] + y[k]) / 2
    return r


def diff(I, a, kw):
    nd = I.nd_arr(a[0])
    n = asint(kw["n"] if "n" in kw else a[1]) if ("n" in kw or len(a) > 1) else 1
    ax = _axis(kw, a, 2)
    m = onp.moveaxis(nd, -1 if ax is None else ax, 0)
    for _ in range(n):
        out = onp.empty((m.shape[0] - 1,) + m.shape[1:], dtype=object)
        for k in range(out.shape[0]):
            for ix in onp.ndindex(*m.shape[1:]):
                out[(k,) + ix] = m[(k + 1,) + ix] - m[(k,) + ix]
        m = out
    return I.arr_of(onp.moveaxis(m, 0, -1 if ax is None else ax))


def vstack(I, a, kw):
    parts = [I.nd_arr(x) for x in I.iterate(a[0])]
    return I.arr_of(onp.concatenate([p.reshape(1, -1) if p.ndim == 1 else p for p in parts], axis=0))


def hstack(I, a, kw):
    parts = [I.nd_arr(x) for x in I.iterate(a[0])]
    return I.arr_of(onp.concatenate(parts, axis=0 if parts[0].ndim == 1 else 1))


def column_stack(I, a, kw):
    parts = [I.nd_arr(x) for x in I.iterate(a[0])]
    return I.arr_of(onp.concatenate([p.reshape(-1, 1) if p.ndim == 1 else p for p in parts], axis=1))


def diag(I, a, kw):
    nd = I.nd_arr(a[0])
    if nd.ndim == 2:
        return I.arr_of(onp.array([nd[k, k] for k in range(min(nd.shape))] + [None], dtype=object)[:-1])
    n = nd.shape[0]
    out = onp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = nd[i] if i == j else T.ZERO
    return I.arr_of(out)


def trace(I, a, kw):
    nd = I.nd_arr(a[0])
    r = T.ZERO
    for k in range(min(nd.shape)):
        r = r + nd[k, k]
    return r


def nonzero(I, a, kw):
    nd = I.nd_arr(a[0])
    hits = []
    for ix in onp.ndindex(*nd.shape):
        c = I.decide(T.truth(nd[ix]))
        if c is T.TRUE:
            hits.append(ix)
        elif c is not T.FALSE:
            raise Undecided("positions of symbolic truth values at %s" % loc(I.node))
    return tuple(I.new_arr([T.const(h[k]) for h in hits], (len(hits),)) for k in range(nd.ndim))


def where(I, a, kw):
    if len(a) == 1:
        return nonzero(I, a, kw)
    return I.ew(lambda c, x, y: T.ite(T.truth(c), x, y), *a)


def select(I, a, kw):
    conds, vals = I.iterate(a[0]), I.iterate(a[1])
    r = kw.get("default", a[2] if len(a) > 2 else T.ZERO)
    for c, v in list(zip(conds, vals))[::-1]:
        r = I.ew(lambda p, x, y: T.ite(T.truth(p), x, y), c, v, r)
    return r


def digitize(I, a, kw):
    right = kw.get("right", a[2] if len(a) > 2 else T.FALSE)
    side = T.strl("left" if right is T.TRUE else "right")
    return EXT["numpy.searchsorted"](I, [a[1], a[0]], {"side": side})


def norm(I, a, kw):
    nd = I.nd_arr(a[0])
    if "ord" in kw or len(a) > 1 or "axis" in kw:
        raise Undecided("norm with options")
    r = T.ZERO
    for v in nd.flat:
        r = r + v * v
    return T.sqrt(r)


def array_equal(I, a, kw):
    x, y = I.nd_arr(a[0]), I.nd_arr(a[1])
    if x.shape != y.shape:
        return T.FALSE
    r = T.TRUE
    for p, q in zip(x.flat, y.flat):
        r = T.and_(r, T.eq(p, q))
    return r


def legval(I, a, kw):
    cs = I.nd_arr(a[1])

    def f(x):
        r = T.ZERO
        for k in range(cs.shape[0]):
            r = r + cs[k] * T.legendre(T.const(k), x)
        return r
    return I.ew(f, a[0])


def polyval(I, a, kw):
    cs = I.nd_arr(a[0])

    def f(x):
        r = T.ZERO
        for c in cs:
            r = r * x + c
        return r
    return I.ew(f, a[1])


def average(I, a, kw):
    w = kw.get("weights", a[2] if len(a) > 2 else None)
    if w is None:
        return EXT["numpy.mean"](I, a[:2], kw)
    if "axis" in kw or len(a) > 1:
        raise Undecided("weighted average over an axis")
    return dot(I, a[0], w) / npsum(I, [w], {})


def rep(I, a, kw):
    x = I.nd_arr(a[0])
    return I.arr_of(onp.repeat(x, ints(I, a[1] if len(a) > 1 else kw["repeats"]), axis=_axis(kw, a, 2)))


def tile(I, a, kw):
    return I.arr_of(onp.tile(I.nd_arr(a[0]), ints(I, a[1])))


def roll(I, a, kw):
    return I.arr_of(onp.roll(I.nd_arr(a[0]), ints(I, a[1]), axis=_axis(kw, a, 2)))


def meshgrid(I, a, kw):
    ind = const_str(kw["indexing"]) if "indexing" in kw else "xy"
    ax = [I.nd_arr(x) for x in a]
    idx = onp.meshgrid(*[onp.arange(x.shape[0]) for x in ax], indexing=ind)
    return I.new_list([I.arr_of(x[i]) for x, i in zip(ax, idx)])


def split(I, a, kw):
    n = ints(I, a[1])
    return I.new_list([I.arr_of(p) for p in onp.split(I.nd_arr(a[0]), n if isinstance(n, int) else list(n), axis=_axis(kw, a, 2) or 0)])


def ndenumerate(I, a, kw):
    nd = I.nd_arr(a[0])
    return Iter([(tuple(T.const(k) for k in ix), nd[ix]) for ix in onp.ndindex(*nd.shape)])


def ndindex(I, a, kw):
    sh = shape_arg(I, a[0]) if len(a) == 1 else tuple(asint(I.scalar(x)) for x in a)
    return Iter([tuple(T.const(k) for k in ix) for ix in onp.ndindex(*sh)])


def full_like(I, a, kw):
    v = a[1] if len(a) > 1 else kw["fill_value"]
    if isinstance(a[0], T.V):
        return v
    return _full(I, I.nd(a[0]).shape, I.scalar(v))


def delete(I, a, kw):
    n = ints(I, a[1])
    return I.arr_of(onp.delete(I.nd_arr(a[0]), n if isinstance(n, int) else list(n), axis=_axis(kw, a, 2)))


def insert(I, a, kw):
    nd = I.nd_arr(a[0]).reshape(-1)
    k = asint(I.scalar(a[1]))
    items = list(nd)
    v = I.nd(a[2])
    items[k:k] = list(v.reshape(-1)) if isinstance(v, onp.ndarray) else [v]
    return I.new_arr(items, (len(items),))


def product(I, a, kw):
    seqs = [I.iterate(x) for x in a]
    r = asint(kw["repeat"]) if "repeat" in kw else 1
    return Iter([tuple(t) for t in itertools.product(*seqs, repeat=r)])


def accumulate(I, a, kw):
    out = []
    for x in I.iterate(a[0]):
        out.append(x if not out else (I.call(a[1], [out[-1], x], {}) if len(a) > 1 else I.binop(ast.Add(), out[-1], x)))
    return Iter(out)


def freduce(I, a, kw):
    items = I.iterate(a[1])
    r = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x], {})
    return r


def pairwise(I, a, kw):
    it = I.iterate(a[0])
    return Iter([(x, y) for x, y in zip(it, it[1:])])


def hypot(x, y):
    return T.sqrt(x * x + y * y)


def op(o):
    return lambda I, a, kw: I.binop(o, a[0], a[1])


def identity_model(I, a, kw):
    return a[0]


def factorial(v):
    n = asint(v)
    if n is None:
        return T.func("factorial", v)
    r = 1
    for k in range(2, n + 1):
        r *= k
    return T.const(r)


def vectorize(I, a, kw):
    f = a[0]
    return Builtin("vectorized", lambda I, b, k: I.ew(lambda *v: I.scalar(I.call(f, list(v), {})), *b))


def as_copy(I, a, kw):
    """contiguous arrays may or may not be copies of their argument"""
    return copy(I, [array(I, a, {})], {}) if not isinstance(a[0], Arr) else copy(I, a, {})


def swapaxes(I, a, kw):
    x = a[0]
    return Arr(x.buf, onp.swapaxes(x.idx, ints(I, a[1]), ints(I, a[2])))


def view(f):
    """views of the same buffer"""
    def g(I, a, kw):
        x = a[0] if isinstance(a[0], Arr) else array(I, [a[0]], {})
        return Arr(x.buf, f(I, x.idx, a[1:], kw))
    return gl(g)


def ax_of(I, a, kw, default=None):
    if "axis" in kw:
        return None if isinstance(kw["axis"], T.NoneL) else ints(I, kw["axis"])
    return ints(I, a[0]) if a else default


n = "numpy."
EXT.update({
    n + "einsum": einsum, n + "tensordot": tensordot, n + "vdot": lambda I, a, kw: dot(I, reshape(I, [a[0], T.const(-1)], {}), reshape(I, [a[1], T.const(-1)], {})),
    n + "cumsum": cumulate(T.add), n + "cumprod": cumulate(T.mul), n + "trapz": trapz, n + "trapezoid": trapz, "scipy.integrate.trapezoid": trapz,
    n + "diff": diff, n + "ediff1d": diff, n + "vstack": vstack, n + "hstack": hstack, n + "column_stack": column_stack, n + "row_stack": vstack,
    n + "diag": diag, n + "trace": trace, n + "nonzero": nonzero, n + "where": where, n + "select": select, n + "digitize": digitize,
    n + "flatnonzero": lambda I, a, kw: nonzero(I, [reshape(I, [a[0], T.const(-1)], {})], {})[0],
    n + "argwhere": lambda I, a, kw: I.arr_of(I.nd_arr(I.new_list(list(nonzero(I, a, {})))).T),
    n + "count_nonzero": lambda I, a, kw: npsum(I, [I.ew(lambda x: T.num(T.truth(x)), a[0])], kw),
    n + "linalg.norm": norm, n + "array_equal": array_equal, n + "polynomial.legendre.legval": legval, n + "polyval": polyval,
    n + "average": average, n + "repeat": rep, n + "tile": tile, n + "roll": roll, n + "meshgrid": meshgrid, n + "split": split, n + "array_split": split,
    n + "ndenumerate": ndenumerate, n + "ndindex": ndindex, n + "full_like": full_like, n + "delete": delete, n + "insert": insert,
    n + "ascontiguousarray": as_copy, n + "asfortranarray": as_copy, n + "asanyarray": EXT[n + "asarray"], n + "swapaxes": swapaxes,
    n + "squeeze": view(lambda I, x, a, kw: onp.squeeze(x, axis=ax_of(I, a, kw))),
    n + "expand_dims": view(lambda I, x, a, kw: onp.expand_dims(x, ax_of(I, a, kw))),
    n + "moveaxis": view(lambda I, x, a, kw: onp.moveaxis(x, ints(I, a[0]), ints(I, a[1]))),
    n + "fliplr": view(lambda I, x, a, kw: onp.fliplr(x)), n + "atleast_2d": view(lambda I, x, a, kw: onp.atleast_2d(x)),
    n + "broadcast_to": view(lambda I, x, a, kw: onp.broadcast_to(x, ints(I, a[0]) if not isinstance(ints(I, a[0]), int) else (ints(I, a[0]),))),
    n + "hypot": e2(hypot), "math.hypot": e2(hypot), n + "logical_xor": e2(lambda x, y: T.ite(T.truth(x), T.not_(T.truth(y)), T.truth(y))),
    n + "not_equal": e2(lambda x, y: T.not_(T.eq(x, y))), n + "true_divide": e2(T.div), n + "floor_divide": e2(lambda x, y: T.floor_(x / y)),
    n + "mod": e2(T.mod), n + "remainder": e2(T.mod), "math.fmod": e2(T.mod), n + "positive": e1(lambda x: x), n + "conj": e1(lambda x: x), n + "real": e1(lambda x: x),
    n + "copysign": EXT["math.copysign"], n + "interp": lambda I, a, kw: npinterp(I, a, kw), n + "nan_to_num": e1(lambda x: x),
    n + "isfinite": e1(lambda x: T.TRUE), n + "isinf": e1(lambda x: T.FALSE), n + "vectorize": vectorize,
    n + "ptp": lambda I, a, kw: npmax(I, a, kw) - npmin(I, a, kw), n + "nansum": npsum, n + "isscalar": lambda I, a, kw: T.lift(isinstance(a[0], T.V)),
    n + "ndim": lambda I, a, kw: T.const(0 if isinstance(a[0], T.V) else I.nd(a[0]).ndim),
    n + "degrees": e1(lambda x: x * 180 / T.sym("pi")), n + "radians": e1(lambda x: x * T.sym("pi") / 180),
    "math.prod": npprod, "math.factorial": e1(factorial), "scipy.special.factorial": e1(factorial), "math.dist": lambda I, a, kw: norm(I, [I.ew(T.sub, a[0], a[1])], {}),
    "math.isnan": e1(lambda x: T.func("isnan", x)), "math.trunc": e1(T.int_), n + "trunc": e1(T.int_), "math.isfinite": e1(lambda x: T.TRUE),
    "math.comb": lambda I, a, kw: factorial(a[0]) / (factorial(a[1]) * factorial(a[0] - a[1])),
    "itertools.product": product, "itertools.chain": lambda I, a, kw: Iter([x for y in a for x in I.iterate(y)]),
    "itertools.chain.from_iterable": lambda I, a, kw: Iter([x for y in I.iterate(a[0]) for x in I.iterate(y)]),
    "itertools.accumulate": accumulate, "itertools.pairwise": pairwise, "functools.reduce": freduce,
    "itertools.repeat": lambda I, a, kw: Iter([a[0]] * asint(a[1])), "itertools.islice": lambda I, a, kw: Iter(I.iterate(a[0])[slice(*[None if isinstance(x, T.NoneL) else asint(x) for x in a[1:]])]),
    "itertools.zip_longest": lambda I, a, kw: Iter([tuple(t) for t in itertools.zip_longest(*[I.iterate(x) for x in a], fillvalue=kw.get("fillvalue", T.NONE))]),
    "operator.add": op(ast.Add()), "operator.sub": op(ast.Sub()), "operator.mul": op(ast.Mult()), "operator.truediv": op(ast.Div()), "operator.pow": op(ast.Pow()),
    "operator.neg": e1(T.neg), "operator.itemgetter": lambda I, a, kw: Builtin("itemgetter", lambda I, b, k: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a)),
    "operator.attrgetter": lambda I, a, kw: Builtin("attrgetter", lambda I, b, k: I.getattr(b[0], const_str(a[0]))),
    "operator.eq": lambda I, a, kw: I.compare(ast.Eq(), a[0], a[1]), "operator.lt": lambda I, a, kw: I.compare(ast.Lt(), a[0], a[1]),
    "operator.le": lambda I, a, kw: I.compare(ast.LtE(), a[0], a[1]), "operator.gt": lambda I, a, kw: I.compare(ast.Gt(), a[0], a[1]),
    "operator.ge": lambda I, a, kw: I.compare(ast.GtE(), a[0], a[1]),
    "collections.OrderedDict": BUILTINS["dict"].fn, "time.perf_counter": lambda I, a, kw: T.sym("walltime"), "time.process_time": lambda I, a, kw: T.sym("walltime"),
    "scipy.special.eval_chebyt": lambda I, a, kw: I.ew(lambda k, x: chebyt(I, k, x), a[0], a[1]),
    "os.path.exists": lambda I, a, kw: T.condv(T.atom("opq", "exists", a[0])) if False else T.TRUE,
    "numpy.empty_like": gl(lambda I, a, kw: _full(I, I.nd(a[0]).shape, T.app("uninit", T.ZERO)) if not isinstance(a[0], T.V) else T.app("uninit", T.ZERO)),
    "numpy.float32": EXT["numpy.float64"], "numpy.int32": EXT["numpy.int64"], "numpy.intp": EXT["numpy.int64"], "numpy.bool_": BUILTINS["bool"].fn,
    "math.tau": None,
})
del EXT["math.tau"]
del EXT["os.path.exists"]
EXTCONST["math.tau"] = T.sym("pi") * 2


def chebyt(I, k, x):
    d = asint(k)
    if d is None:
        raise Undecided("symbolic Chebyshev order")
    a, b = T.ONE, x
    for _ in range(d):
        a, b = b, 2 * x * b - a
    return a


def npinterp(I, a, kw):
    if kw:
        raise Undecided("interp with options")
    xp, fp = I.nd_arr(a[1]), I.nd_arr(a[2])

    def f(x):
        r = fp[-1]
        for k in range(len(xp) - 1, 0, -1):
            seg = fp[k - 1] + (fp[k] - fp[k - 1]) * (x - xp[k - 1]) / (xp[k] - xp[k - 1])
            r = T.ite(T.le(x, xp[k]), seg, r)
        return T.ite(T.le(x, xp[0]), fp[0], r)
    return I.ew(f, a[0])


for k in ("cumsum", "cumprod", "repeat", "squeeze", "trace", "diagonal", "nonzero", "swapaxes"):
    if n + k in EXT:
        ARR_METHODS[k] = EXT[n + k]
ARR_METHODS["round"] = EXT[n + "round"]
ARR_METHODS["ptp"] = EXT[n + "ptp"]
ARR_METHODS["conj"] = EXT[n + "conj"]
ARR_METHODS["view"] = lambda I, a, kw: Arr(a[0].buf, a[0].idx)


def l_count(I, a, kw):
    r = T.ZERO
    for x in I.iterate(a[0]):
        r = r + T.num(I.boolv(I.compare(ast.Eq(), x, a[1])))
    return r


def l_clear(I, a, kw):
    I._own(a[0].id).clear()
    return T.NONE


def l_sort(I, a, kw):
    if kw:
        raise Undecided("list.sort with options")
    items = I.iterate(EXT[n + "sort"](I, [a[0]], {}))
    own = I._own(a[0].id)
    own[:] = items
    return T.NONE


LIST_METHODS.update({"count": l_count, "clear": l_clear, "sort": l_sort})


def d_setdefault(I, a, kw):
    d = I._own(a[0].id)
    return d.setdefault(I.dkey(a[1]), a[2] if len(a) > 2 else T.NONE)


DICT_METHODS.update({"setdefault": d_setdefault, "clear": l_clear})


def s_replace(I, a, kw):
    s, old = const_str(a[0]), const_str(a[1])
    if s is None or old in (None, "") or len(a) > 3:
        return T.strl(T.app("str.replace", *a))
    parts = s.split(old)
    r = T.strl(parts[0])
    for p in parts[1:]:
        r = T.add(T.add(r, a[2]), T.strl(p))
    return r


STR_METHODS["replace"] = s_replace


def bset(I, a, kw):
    """sets are kept as lists without repetition"""
    out = []
    for x in (I.iterate(a[0]) if a else []):
        if not any(y is x for y in out):
            out.append(x)
    return I.new_list(out)


def bfilter(I, a, kw):
    out = []
    for x in I.iterate(a[1]):
        c = I.decide(I.boolv(x if isinstance(a[0], T.NoneL) else I.call(a[0], [x], {})))
        if c is T.TRUE:
            out.append(x)
        elif c is not T.FALSE:
            raise Undecided("filter on symbolic values")
    return Iter(out)


def bnext(I, a, kw):
    it = I.iterate(a[0])
    if it:
        return it[0]
    if len(a) > 1:
        return a[1]
    raise Undecided("next of an empty iterator")


for _k, _f in (("set", bset), ("frozenset", bset), ("filter", bfilter), ("next", bnext), ("slice", None)):
    if _f is not None and (_k not in BUILTINS or _k == "set"):
        BUILTINS[_k] = Builtin(_k, _f)

def outer(f):
    def g(I, a, kw):
        x, y = I.nd_arr(a[0]), I.nd_arr(a[1])
        return I.ew(f, I.arr_of(x.reshape(x.shape + (1,) * y.ndim)), a[1])
    return gl(g)


for _k, _f, _i in (("add", T.add, T.ZERO), ("multiply", T.mul, T.ONE), ("subtract", T.sub, None), ("maximum", T.max_, None), ("minimum", T.min_, None)):
    EXT[n + _k + ".outer"] = outer(_f)
    EXT[n + _k + ".reduce"] = (lambda r: lambda I, a, kw: r(I, a, kw if ("axis" in kw or len(a) > 1) else dict(kw, axis=T.ZERO)))(reduce_(_f, _i))
    EXT[n + _k + ".accumulate"] = cumulate(_f)

# ---------------------------------------------------------------- keywords

PLAIN = {"dtype", "axis", "order", "copy", "endpoint", "num", "side", "decimals", "ndigits", "fill_value", "shape", "rtol", "atol", "axes", "n", "x", "dx",
         "default", "right", "weights", "repeats", "indexing", "initial", "repeat", "start", "deg", "end", "sep", "flush", "file", "key_type", "value_type",
         "label", "subok", "fillvalue", "ord", "like", "equal_nan", "optimize", "stacklevel", "casting", "otypes", "excluded", "signature"}


def call_ext(I, h, name, a, kw):
    """library call: common keywords, refuse the ones the models do not know"""
    if not kw or not name.startswith(("numpy.", "math.", "itertools.", "operator.", "functools.reduce")):
        return h(I, a, kw)
    kw = dict(kw)
    out = kw.pop("out", None)
    keep = kw.pop("keepdims", None)
    if "initial" in kw and name not in ("numpy.sum",):
        raise Undecided("keyword initial of %s" % name)
    bad = set(kw) - PLAIN - {"a", "b", "v", "func", "fill_value", "obj"}
    if bad:
        raise Undecided("keyword %s of %s at %s" % (sorted(bad), name, loc(I.node)))
    for first in ("a", "x"):
        if first in kw and not a and name.startswith("numpy."):
            a = [kw.pop(first)] + list(a)
    if "axis" in kw and isinstance(kw["axis"], tuple):
        axs = sorted((ints(I, kw["axis"])), reverse=True)
        nd = I.nd_arr(a[0]).ndim
        r = a[0]
        for ax in sorted([x % nd for x in axs], reverse=True):
            r = h(I, [r] + list(a[1:]), dict(kw, axis=T.const(ax)))
    else:
        r = h(I, a, kw)
    if keep is T.TRUE:
        nd = I.nd_arr(a[0]).ndim
        ax = kw.get("axis")
        if ax is None or isinstance(ax, T.NoneL):
            r = I.arr_of(I.nd_arr(r).reshape((1,) * nd))
        else:
            r = EXT["numpy.expand_dims"](I, [r], {"axis": ax})
    if out is not None and not isinstance(out, T.NoneL):
        I.arr_set(out, (Ellipsis,), r)
        return out
    return r


def extreme(less):
    def g(I, a, kw):
        items = list(a) if len(a) > 1 else I.iterate(a[0])
        if not items and "default" in kw:
            return kw["default"]
        key = kw.get("key")
        ks = [I.scalar(I.call(key, [x], {}) if key is not None and not isinstance(key, T.NoneL) else x) for x in items]
        if key is None:
            items = ks
        best, kb = items[0], ks[0]
        for x, k in list(zip(items, ks))[1:]:
            if key is None:
                best = kb = (T.min_ if less is T.lt else T.max_)(best, k)
                continue
            c = I.decide(less(k, kb))
            if c is T.TRUE:
                best, kb = x, k
            elif c is not T.FALSE:
                if not (isinstance(x, T.V) and isinstance(best, T.V)):
                    raise Undecided("extreme by a symbolic key at %s" % loc(I.node))
                best, kb = T.ite(c, x, best), T.ite(c, k, kb)
        return best
    return g


def bsorted(I, a, kw):
    key, rev = kw.get("key"), kw.get("reverse", T.FALSE)
    if key is None and rev is T.FALSE:
        return I.new_list(I.iterate(EXT[n + "sort"](I, [a[0]], {})))
    items = I.iterate(a[0])
    ks = [I.scalar(I.call(key, [x], {})) if key is not None else I.scalar(x) for x in items]
    out = []
    for x, k in zip(items, ks):
        pos = len(out)
        for j, (_, q) in enumerate(out):
            c = I.decide(T.lt(q, k) if rev is T.TRUE else T.lt(k, q))
            if c is T.TRUE:
                pos = j
                break
            if c is not T.FALSE:
                raise Undecided("sorting by symbolic keys at %s" % loc(I.node))
        out.insert(pos, (x, k))
    return I.new_list([x for x, _ in out])


BUILTINS["min"] = Builtin("min", extreme(T.lt))
BUILTINS["max"] = Builtin("max", extreme(lambda x, y: T.lt(y, x)))
BUILTINS["sorted"] = Builtin("sorted", bsorted)
