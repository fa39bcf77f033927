"""P10  uncollided flux: total, fresh, pointwise, absent when switched off."""
from checks.common import *

LEVEL = "other"
EXPLANATION = ("Value graph of the uncollided-flux entry point for every source type, geometry and switch, evaluated on arrays of symbolic points and "
               "re-evaluated on the same object, compared with a fresh single-point evaluation.")


def make(ctx, g, src, unc, nang):
    I = ctx.interp()
    b, P = mkbuild(ctx, I, N_ang=nang, geometry=geom(I, g), source_type=srctype(I, *src), uncollided=unc, nt=1)
    u = construct(ctx, I, "uncollided_solution", {"build": b})
    return I, P, I.method(u, "uncollided_solution")


SRC = ((), (0,), (1,), (2,), (3,), (4,), (5,))


def off(ctx):
    for g in ("slab", "sphere"):
        for src in SRC:
            I, P, f = make(ctx, g, src, 0, 4)
            xs = [T.sym("x1"), T.sym("x2"), T.sym("x3")]
            r = run(ctx, I, f, I.arr_of(xs), T.possym("t"))
            ctx.equal("off %s %s" % (g, src), where(f), list(I.cells(r)), [T.ZERO] * 3)
    ctx.rule("switched off: zero at every point, for every source type and geometry")


def fresh(ctx):
    """arrays are handled point by point and nothing survives from an earlier call"""
    for g, types in (("slab", SRC), ("sphere", ((0,), (1,), (2,), (3,)))):
        for nang in (2, 4):
            for src in types:
                if src == (2,) and nang == 4:
                    pts = 2
                else:
                    pts = 3
                xs = [T.sym("x", T.const(k)) for k in range(pts)]
                t = T.possym("t")
                single = []
                I, P, f = make(ctx, g, src, 1, nang)
                v0 = list(I.cells(run(ctx, I, f, I.arr_of([T.sym("xx")]), t)))
                ctx.require("size %s %s" % (g, src), len(v0) == 1, where(f), "one value per point expected")
                a = T.single_atom(T.sym("xx"))
                want = [T.subst(v0[0], {a: x}) for x in xs]
                arg = I.arr_of(xs)
                got = list(I.cells(run(ctx, I, f, arg, t)))
                ctx.equal("pointwise %s %s angles=%d" % (g, src, nang), where(f), got, want)
                ctx.equal("points left as given %s %s angles=%d" % (g, src, nang), where(f), list(I.cells(arg)), xs)
                t2 = T.possym("t2")
                got = list(I.cells(run(ctx, I, f, I.arr_of(xs[:1]), t2)))
                ctx.equal("later call %s %s angles=%d" % (g, src, nang), where(f), got, [T.subst(want[0], {T.single_atom(t): t2})])
    ctx.rule("the value at a point depends on that point and the time only: same result inside an array of points and on a re-used object; "
             "the array of points is not written")


def none(ctx):
    for g, types in (("slab", ((4,),)), ("sphere", ((2,), (3,), (4,), (5,), ()))):
        for src in types:
            I, P, f = make(ctx, g, src, 1, 4)
            r = run(ctx, I, f, I.arr_of([T.sym("x1"), T.sym("x2")]), T.possym("t"))
            ctx.equal("no closed form %s %s" % (g, src), where(f), list(I.cells(r)), [T.ZERO] * 2)
    ctx.rule("problem types without an analytic first flight contribute zero")


def check(ctx):
    ctx.section("off", off)
    ctx.section("fresh", fresh)
    ctx.section("none", none)
