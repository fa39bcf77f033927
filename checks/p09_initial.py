"""P09  initial angular flux of every problem type."""
from checks.common import *
from checks.rhs_common import sum_

LEVEL = "other"
EXPLANATION = ("Value graph of the initial-condition object for every source type and both geometries at a symbolic point and angle, and of the whole "
               "projected initial state of the pulse on static and moving meshes.")
A0, X, MU = T.sym("A0"), T.sym("x"), T.sym("mu")


def ic(ctx, I, g, src, unc, x1=T.ZERO, n=6, extra=None):
    o = construct(ctx, I, "IC_func", {"source_type": srctype(I, *src, n=n, extra=extra), "uncollided": T.const(unc), "x0": T.possym("x0"),
                                      "source_strength": A0, "sigma": T.possym("sigma"), "x1": x1, "geometry": geom(I, g)})
    f = I.method(o, "function")
    return f, list(I.cells(run(ctx, I, f, I.arr_of([X, X + 1]), MU)))


def shapes(ctx):
    x0, sg = T.possym("x0"), T.possym("sigma")
    on = lambda lo, hi, v: (lambda x: T.ite(T.and_(T.lt(lo, x), T.le(x, hi)), v, T.ZERO))
    zero = lambda x: T.ZERO
    R3 = x0 ** 3
    forms = {("slab", (0,)): on(T.ZERO - x0, x0, A0 / (4 * x0)), ("slab", (1,)): on(T.ZERO - x0, x0, A0 / 2), ("slab", (2,)): zero, ("slab", (5,)): zero,
             ("slab", ()): zero, ("slab", (3,)): lambda x: A0 * T.exp(-x * x / sg ** 2) / 2, ("slab", (4,)): lambda x: T.exp(-x * x / 2) / 2,
             ("sphere", (0,)): on(T.ZERO, x0, A0 / R3), ("sphere", (1,)): on(T.ZERO, x0, 3 * A0 / (8 * PI * R3))}
    for (g, src), f in forms.items():
        for unc in (0, 1):
            I = ctx.interp()
            fn, v = ic(ctx, I, g, src, unc)
            w = f if not unc else zero
            ctx.equal("initial flux %s %s uncollided=%d" % (g, src, unc), where(fn), v, [w(X), w(X + 1)], boundary=False)
    I = ctx.interp()
    fn, v = ic(ctx, I, "slab", (3,), 0, n=8, extra={7: 1})
    h = lambda x: T.ite(T.lt(T.ZERO, MU), A0 * T.exp(-x * x / sg ** 2), T.ZERO)
    ctx.equal("one-sided gaussian", where(fn), v, [h(X), h(X + 1)], boundary=False)
    ctx.rule("initial flux of every source type equals its closed form: half the (normalised) strength on the pulse, nothing when the pulse is "
             "treated analytically, and nothing for external-source problems")


def dipole(ctx):
    I = ctx.interp()
    d = T.possym("d")
    for x1 in (d, T.ZERO - d):
        fn, v = ic(ctx, I, "slab", (), 0, x1=x1, extra={0: 2})
        w = lambda x: T.ite(T.and_(T.lt(T.ZERO, x), T.lt(x, d)), A0 / (2 * d), T.ite(T.and_(T.lt(T.ZERO - d, x), T.lt(x, T.ZERO)), T.ZERO - A0 / (2 * d), T.ZERO))
        ctx.equal("dipole", where(fn), v, [w(X), w(X + 1)], boundary=False)
    for N in (4, 6, 8, 10):
        for M in (0, 1):
            I = ctx.interp()
            q = [T.ZERO] if M == 0 else [T.ZERO - T.sqrt(T.const(1) / 3), T.sqrt(T.const(1) / 3)]
            w = [T.const(2)] if M == 0 else [T.ONE, T.ONE]
            b, P = mkbuild(ctx, I, M=M, N_space=N, source_type=srctype(I, extra={0: 2}), xs_quad=I.arr_of(q), ws_quad=I.arr_of(w), moving=0)
            f = I.method(b, "make_IC")
            run(ctx, I, f)
            IC = I.cells(I.getattr_obj(b, "IC"))
            e = mesh_edges(ctx, I, P)
            d = e[N // 2 + 1] - e[N // 2]
            shape = lambda x: T.ite(T.and_(T.lt(T.ZERO, x), T.lt(x, d)), A0 / (2 * d), T.ite(T.and_(T.lt(T.ZERO - d, x), T.lt(x, T.ZERO)), T.ZERO - A0 / (2 * d), T.ZERO))
            for ang in range(2):
                for s in range(N):
                    h = e[s + 1] - e[s]
                    xs = [h / 2 * z + (e[s] + e[s + 1]) / 2 for z in q]
                    want = sum_([h / 2 * wk * shape(x) / T.sqrt(h) for x, wk in zip(xs, w)])
                    ctx.equal("projected dipole N=%d M=%d angle %d cell %d" % (N, M, ang, s), where(f), IC[ang, s, 0], want, boundary=False)
                    if M:
                        want = sum_([h / 2 * wk * z * shape(x) * T.sqrt(T.const(3) / h) for x, wk, z in zip(xs, w, q)])
                        ctx.equal("projected dipole N=%d angle %d cell %d, slope" % (N, ang, s), where(f), IC[ang, s, 1], want, boundary=False)
    ctx.rule("the dipole is antisymmetric about the origin with weight 1/2 on each side, and on a static mesh its half width "
             "is the width of the middle cell")


def similar(ctx):
    """the self-similar initial profile is a diffusion kernel"""
    for unc in (0, 1):
        I = ctx.interp()
        fn, v = ic(ctx, I, "slab", (), unc, extra={0: 3})
        if unc:
            ctx.equal("self-similar profile, uncollided", where(fn), v, [T.ZERO, T.ZERO])
            continue
        at = lambda x: list(I.cells(run(ctx, I, fn, I.arr_of([x]), MU)))[0]
        A, t = T.lift(29.998) / 3 / 800, T.lift(0.01)
        ctx.equal("self-similar profile", where(fn), v, [at(T.ZERO) * T.exp(T.ZERO - x * x / (4 * A * t)) for x in (X, X + 1)])
        ctx.require("self-similar profile has content", T.is_const(at(T.ZERO)) is False or T.const_val(at(T.ZERO)) > 0, where(fn), "the profile is nothing at the origin")
    ctx.rule("the self-similar plane profile is the diffusion kernel exp(-x^2 / 4At) up to its amplitude")


def mesh_edges(ctx, I, P):
    d = {k: P[k] for k in P}
    d.update(thick_quad=P["quad_thick_source"], thick_quad_edge=P["quad_thick_edge"], fake_sedov_v=P["fake_sedov_v0"])
    return list(I.cells(I.getattr_obj(construct(ctx, I, "mesh_class", d), "edges")))


def total(ctx):
    """particles in the projected pulse, one-point rule (exact for cell-wise constants)"""
    for N in (4, 6, 8, 36):
        for moving in (0, 1):
            I = ctx.interp()
            b, P = mkbuild(ctx, I, M=0, N_space=N, source_type=srctype(I, 0), xs_quad=I.arr_of([T.ZERO]), ws_quad=I.arr_of([T.const(2)]), moving=moving)
            f = I.method(b, "make_IC")
            run(ctx, I, f)
            IC = I.cells(I.getattr_obj(b, "IC"))
            e = mesh_edges(ctx, I, P)
            for ang in range(2):
                tot = sum_([IC[ang, s, 0] * T.sqrt(e[s + 1] - e[s]) for s in range(N)])
                ctx.equal("pulse content N=%d moving=%d angle=%d" % (N, moving, ang), where(f), tot, A0 / 2, boundary=False)
    ctx.rule("the projected plane pulse carries the full strength on static and on moving meshes, in every direction")


def check(ctx):
    ctx.section("shapes", shapes)
    ctx.section("dipole", dipole)
    ctx.section("self-similar profile", similar)
    ctx.section("pulse content", total)
