"""P08  external source: shape, switch-off, strength applied exactly once."""
from checks.common import *
from checks.p07_projection import quad, opaque
from sa.interp import Builtin

LEVEL = "other"
EXPLANATION = ("Value graphs of the source moments for every source type, and of every initial pulse and uncollided flux, as functions of the "
               "source strength; exact form of the external sources and linearity (strength times the unit-strength value) of the rest.")
A0 = T.sym("A0")


def unit(v):
    return A0 * T.subst(v, {T.single_atom(A0): T.ONE})


def external(ctx):
    for M in (0, 2):
        for src in ((), (0,), (1,), (2,), (3,), (5,)):
            I = ctx.interp()
            b, P = mkbuild(ctx, I, M=M, source_type=srctype(I, *src), uncollided=0)
            s = construct(ctx, I, "source_class", {"build": b})
            a, h, t = T.sym("a"), T.possym("h"), T.possym("t")
            f = I.method(s, "make_source")
            u = I.new_obj({"uncollided_solution": opaque(I, "U", 1)})
            run(ctx, I, f, t, a, a + h, u)
            if src == (2,):
                fx = lambda x: T.ite(T.and_(T.le(T.abs_(x), P["x0"]), T.lt(t, P["t0"])), A0, T.ZERO)
            elif src == (5,):
                fx = lambda x: T.ite(T.le(t, P["t0"]), A0 * T.exp(-x * x / P["sigma"] ** 2), T.ZERO)
            else:
                fx = lambda x: T.ZERO
            want = [quad(P, I, a, a + h, fx, lambda z: Bleg(j, z, h)) for j in range(M + 1)]
            ctx.equal("external source %s M=%d" % (src, M), where(f), I.cells(I.getattr_obj(s, "S")), want, boundary=False)
            # next cell: no accumulation
            a2 = T.sym("a2")
            run(ctx, I, f, t, a2, a2 + h, u)
            ctx.equal("external source again %s M=%d" % (src, M), where(f), I.cells(I.getattr_obj(s, "S")),
                      [T.subst(w, {T.single_atom(a): a2}) for w in want], boundary=False)
    ctx.rule("external source moments: square source A0 on |x|<=x0 while t<t0, gaussian A0 exp(-x^2/sigma^2) while t<=t0, none for the "
             "other types; evaluated twice in a row without accumulation")


def uncollided(ctx):
    for g, types in (("slab", ((), (0,), (1,), (2,), (3,), (5,))), ("sphere", ((0,), (1,)))):
        for nang in (2, 4):
            for src in types:
                I = ctx.interp()
                b, P = mkbuild(ctx, I, N_ang=nang, geometry=geom(I, g), source_type=srctype(I, *src), uncollided=1, moving=0)
                u = construct(ctx, I, "uncollided_solution", {"build": b})
                f = I.method(u, "uncollided_solution")
                x, t = T.sym("x"), T.possym("t")
                v = list(I.cells(run(ctx, I, f, I.arr_of([x]), t)))[0]
                ctx.equal("uncollided strength %s %s N_ang=%d" % (g, src, nang), where(f), v, unit(v))
                ctx.require("uncollided present %s %s" % (g, src), v is not T.ZERO, where(f), "the uncollided flux is identically zero")
    for g, types in (("slab", ((), (0,), (1,), (2,), (3,), (5,))), ("sphere", ((0,), (1,)))):
        for src in types:
            for mv in (0, 1):
                I = ctx.interp()
                b2, P2 = mkbuild(ctx, I, M=1, N_ang=4, geometry=geom(I, g), source_type=srctype(I, *src), uncollided=1, moving=mv)
                u = construct(ctx, I, "uncollided_solution", {"build": b2})
                U = lambda x, t: T.app("Uflux", x, t)

                def stub(I, a, kw):
                    return I.ew(lambda x: U(x, I.scalar(a[1])), a[0])
                I.setattr_obj(u, "uncollided_solution", Builtin("uncollided_solution", stub))
                s = construct(ctx, I, "source_class", {"build": b2})
                fs = I.method(s, "make_source")
                t = T.possym("t")
                for rep, a in enumerate((T.sym("a"), T.sym("a2"))):
                    h = T.possym("h")
                    run(ctx, I, fs, t, a, a + h, u)
                    S = I.cells(I.getattr_obj(s, "S"))
                    key = "source from the uncollided flux %s %s moving=%d %d" % (g, src, mv, rep)
                    if g == "slab" and src == (0,) and mv:
                        want = [P2["sigma_s"] * A0 * T.exp(-t) / (2 * t + P2["x0"]) * T.sqrt(h), T.ZERO]
                        ctx.equal(key, where(fs), S, want)
                    elif g == "slab":
                        want = [P2["sigma_s"] * quad(P2, I, a, a + h, lambda x: U(x, t), lambda z: Bleg(j, z, h)) for j in range(2)]
                        ctx.equal(key, where(fs), S, want)
                    else:
                        want = [quad(P2, I, a, a + h, lambda x: U(x, t), lambda z: Bcheb(j, z, h), lambda x, z: x * x * T.sqrt(1 - z * z))
                                for j in range(2)]
                        ctx.equal(key, where(fs), S, want, known={"point_pulse_no_scattering": [T.ZERO, T.ZERO]} if src == (0,) else None)
    ctx.rule("uncollided flux and the source built from it: value == strength x value at unit strength, for every source type, both "
             "geometries, S2 and full ordinates, static and moving; slab sources equal the scattering cross section times its projection")


def pulses(ctx):
    for g, types in (("slab", ((0,), (1,), (2,), (3,))), ("sphere", ((0,), (1,)))):
        for src in types:
            I = ctx.interp()
            ic = construct(ctx, I, "IC_func", {"source_type": srctype(I, *src), "uncollided": T.ZERO, "x0": T.possym("x0"),
                                               "source_strength": A0, "sigma": T.possym("sigma"), "x1": T.ZERO, "geometry": geom(I, g)})
            f = I.method(ic, "function")
            v = list(I.cells(run(ctx, I, f, I.arr_of([T.sym("x")]), T.sym("mu"))))[0]
            ctx.equal("pulse strength %s %s" % (g, src), where(f), v, unit(v))
    ctx.rule("initial pulses scale linearly with the strength")


def mms(ctx):
    """strength never touches the manufactured problem"""
    I = ctx.interp()
    b, P = mkbuild(ctx, I, M=1, source_type=srctype(I, 4))
    s = construct(ctx, I, "source_class", {"build": b})
    a, h, t, mu = T.sym("a"), T.possym("h"), T.possym("t"), T.sym("mu")
    f = I.method(s, "make_source_not_isotropic")
    run(ctx, I, f, t, mu, a, a + h)
    for c in I.cells(I.getattr_obj(s, "S")):
        ctx.require("manufactured source", not T.depends(c, T.single_atom(A0)), where(f), "the manufactured source depends on the source strength")


def check(ctx):
    ctx.section("external", external)
    ctx.section("uncollided", uncollided)
    ctx.section("pulses", pulses)
    ctx.section("mms", mms)
