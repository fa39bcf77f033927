"""P07  projections of functions onto the cell basis."""
from checks.common import *
from sa.interp import Builtin

LEVEL = "other"
EXPLANATION = ("Value graphs of every projection routine with symbolic quadrature rule, cell ends and an uninterpreted projected function; "
               "each stored coefficient is compared with the quadrature of function x basis over its own cell.")


def opaque(I, name, n_extra):
    """callable mapping an array x (+ scalars) elementwise to an uninterpreted value"""
    def f(I, a, kw):
        x = a[0]
        rest = [I.scalar(v) for v in a[1:1 + n_extra]]
        return I.ew(lambda c: T.app(name, c, *rest), x)
    return Builtin(name, f)


def fval(name, x, *rest):
    return T.app(name, x, *rest)


def quad(P, I, a, b, f, g, weight=lambda x, z: T.ONE):
    xs, ws = list(I.cells(P["xs_quad"])), list(I.cells(P["ws_quad"]))
    r = T.ZERO
    h = b - a
    for z, w in zip(xs, ws):
        x = h / 2 * z + (a + b) / 2
        r = r + w * f(x) * g(z) * weight(x, z)
    return r * h / 2


def stub_mesh(I, E):
    n = len(E)
    return Builtin("mesh_class", lambda I, a, kw: I.new_obj({"edges": I.arr_of(E), "Dedges": I.arr_of([T.ZERO] * n),
                                                             "move": Builtin("move", lambda I, a, kw: T.NONE)}))


def initial(ctx):
    for g in ("slab", "sphere"):
        for therm in ((False, True) if g == "slab" else (False,)):
            for M in (0, 2) if not ctx.thorough else (0, 1, 2, 3, 5):
                n = 3
                ov = {}
                I = ctx.interp(overrides=ov)
                E, hs = edges(I, n)
                ov["mesh_class"] = stub_mesh(I, E)
                ov["IC_func"] = Builtin("IC_func", lambda I, a, kw: I.new_obj({"function": opaque(I, "F", 1)}))
                I.overrides = ov
                b, P = mkbuild(ctx, I, M=M, N_space=n, N_ang=2, geometry=geom(I, g), thermal_couple=couple(I, "rad" if therm else "none"),
                               moving=1, source_type=srctype(I, 1))
                run(ctx, I, I.method(b, "make_IC"))
                IC = I.cells(I.getattr_obj(b, "IC"))
                mus = list(I.cells(P["mus"]))
                for ang in range(2):
                    for s in range(n):
                        want = []
                        for j in range(M + 1):
                            if g == "slab":
                                want.append(quad(P, I, E[s], E[s + 1], lambda x: fval("F", x, mus[ang]), lambda z: Bleg(j, z, hs[s])))
                            else:
                                want.append(2 * quad(P, I, E[s], E[s + 1], lambda x: fval("F", x, mus[ang]), lambda z: Bcheb(j, z, hs[s])))
                        ctx.equal("initial state %s M=%d angle %d cell %d thermal %s" % (g, M, ang, s, therm), where(I.method(b, "make_IC")), IC[ang, s], want)
                if therm:
                    ctx.require("shape", IC.shape[0] == 3, where(I.method(b, "make_IC")), "no row for the material energy")
                    for s in range(n):
                        want = [quad(P, I, E[s], E[s + 1], lambda x: P["e_initial"], lambda z: Bleg(j, z, hs[s])) for j in range(M + 1)]
                        ctx.equal("initial material energy M=%d cell %d" % (M, s), where(I.method(b, "make_IC")), IC[2, s], want)
                else:
                    ctx.require("shape", IC.shape[0] == 2, where(I.method(b, "make_IC")), "unexpected extra row")
    ctx.rule("initial state: slab (b-a)/2 sum w f(x,mu) B_j(x); sphere the same with the Chebyshev weight (factor 2), every angle, cell and order; "
             "an extra constant-energy row exactly when material coupling is on")


def mms_source(x, t, mu, x0):
    return T.ite(T.le(T.abs_(x), t + x0), -(1 + (1 + t) * x * mu) * T.exp(-x * x / 2) / (1 + t) ** 2, T.ZERO)


def source(ctx):
    """uncollided / external source moments"""
    for g in ("slab", "sphere"):
        for M in (0, 2) if not ctx.thorough else (0, 1, 2, 3, 5):
            I = ctx.interp()
            b, P = mkbuild(ctx, I, M=M, geometry=geom(I, g), source_type=srctype(I, 1), uncollided=1, moving=1)
            s = construct(ctx, I, "source_class", {"build": b})
            u = I.new_obj({"uncollided_solution": opaque(I, "U", 1)})
            a, h, t = T.sym("a"), T.possym("h"), T.possym("t")
            f = I.method(s, "make_source")
            run(ctx, I, f, t, a, a + h, u)
            S = I.cells(I.getattr_obj(s, "S"))
            want = []
            for j in range(M + 1):
                if g == "slab":
                    want.append(P["sigma_s"] * quad(P, I, a, a + h, lambda x: fval("U", x, t), lambda z: Bleg(j, z, h)))
                else:
                    want.append(quad(P, I, a, a + h, lambda x: fval("U", x, t), lambda z: Bcheb(j, z, h), lambda x, z: x * x * T.sqrt(1 - z * z)))
            ctx.equal("source moments %s M=%d" % (g, M), where(f), S, want)
            # a second cell, later time: nothing carried over
            a2, h2, t2 = T.sym("a2"), T.possym("h2"), T.possym("t2")
            run(ctx, I, f, t2, a2, a2 + h2, u)
            S = I.cells(I.getattr_obj(s, "S"))
            sb = {T.single_atom(a): a2, T.single_atom(h): h2, T.single_atom(t): t2}
            ctx.equal("source moments again %s M=%d" % (g, M), where(f), S, [T.subst(w, sb) for w in want])
    # angular-dependent source
    for M in (0, 2):
        I = ctx.interp()
        b, P = mkbuild(ctx, I, M=M, source_type=srctype(I, 4))
        s = construct(ctx, I, "source_class", {"build": b})
        a, h, t, mu = T.sym("a"), T.possym("h"), T.possym("t"), T.sym("mu")
        f = I.method(s, "make_source_not_isotropic")
        run(ctx, I, f, t, mu, a, a + h)
        S = I.cells(I.getattr_obj(s, "S"))
        ctx.equal("angular source moments M=%d" % M, where(f), S,
                  [quad(P, I, a, a + h, lambda x: mms_source(x, t, mu, P["x0"]), lambda z: Bleg(j, z, h)) for j in range(M + 1)], boundary=False)
    ctx.rule("source moments: slab (b-a)/2 sum w f B_j scaled by the scattering cross section; sphere (b-a)/2 sum w r^2 sqrt(1-z^2) f B_j; "
             "manufactured source (b-a)/2 sum w f(x,t,mu) B_j; nothing left over from another cell")


def opacity(ctx):
    for name, form in (("gaussian", lambda x: T.exp(-x * x / 8)), ("siewert1", lambda x: T.exp(-x - T.const(Fr(5, 2))))):
        for Ms in (0, 2) if not ctx.thorough else (0, 1, 2, 4):
            n = 2
            I = ctx.interp()
            b, P = mkbuild(ctx, I, M=1, Msigma=Ms, N_space=n, sigma_func=opac(I, name))
            s = construct(ctx, I, "sigma_integrator", {"build": b})
            E, hs = edges(I, n)
            t = T.possym("t")
            f = I.method(s, "sigma_moments")
            run(ctx, I, f, I.arr_of(E), t)
            cs = I.cells(I.getattr_obj(s, "cs"))
            for k in range(n):
                ctx.equal("opacity moments %s Msigma=%d cell %d" % (name, Ms, k), where(f), cs[k],
                          [quad(P, I, E[k], E[k + 1], form, lambda z: Bleg(j, z, hs[k])) for j in range(Ms + 1)], facts=moved(E))
    ctx.rule("opacity moments: c_kj == (b-a)/2 sum w sigma(x,t) B_j over cell k")


def moved(E):
    """the cells are not the all-zero cells the object starts with"""
    return [T.not_(T.eq(E[0], T.ZERO)), T.not_(T.eq(E[-1], T.ZERO)), T.not_(T.eq(E[1], T.ZERO))]


def temperature(ctx):
    for tf in ((1, 0), (0, 1)):
        for M in (0, 1):
            I = ctx.interp()
            b, P = mkbuild(ctx, I, M=M, nq=2, thermal_couple=couple(I, "rad"), temp_function=list(tf))
            s = construct(ctx, I, "T_function", {"build": b})
            a, h = T.sym("a"), T.possym("h")
            f = I.method(s, "make_H")
            ev = I.vec("ev", M + 1)
            run(ctx, I, f, a, a + h, ev)
            ec = list(I.cells(ev))
            arad = T.lift(0.0137225)

            def emission(x):
                z = (2 * x - 2 * a - h) / h
                e = T.ZERO
                for j in range(M + 1):
                    e = e + ec[j] * Bleg(j, z, h)
                return e if tf[0] else (e * arad / P["cv0"]) ** 4
            ctx.equal("emission moments M=%d %s" % (M, tf), where(f), I.cells(I.getattr_obj(s, "H")),
                      [quad(P, I, a, a + h, emission, lambda z: Bleg(j, z, h)) for j in range(M + 1)], boundary=False)
    for M in (0, 2):
        I = ctx.interp()
        b, P = mkbuild(ctx, I, M=M)
        s = construct(ctx, I, "T_function", {"build": b})
        f = I.method(s, "make_H")
        a, h = T.sym("a"), T.possym("h")
        run(ctx, I, f, a, a + h, I.vec("ev", M + 1))
        ctx.equal("no emission without coupling M=%d" % M, where(f), I.cells(I.getattr_obj(s, "H")), [T.ZERO] * (M + 1))
    ctx.rule("emission moments: (b-a)/2 sum w f B_j with f = e for the cubic heat capacity (a T^4 == e, sign kept) and (e a/cv0)^4 for the "
             "constant one; zero without material coupling")


def check(ctx):
    ctx.section("initial state", initial)
    ctx.section("source", source)
    ctx.section("opacity", opacity)
    ctx.section("temperature", temperature)
