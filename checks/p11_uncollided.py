"""P11  closed forms of the uncollided flux."""
from checks.common import *
from sa.interp import Builtin

LEVEL = "other"
EXPLANATION = ("Value graph of the uncollided flux at one point for every supported source, merged over all its case distinctions, compared "
               "region by region with the exact free-flight integral (floats below 1e-9 are read as zero: they only guard divisions).")
ASSUMPTIONS = ["floating-point constants below 1e-9 are regularisers and are read as zero"]
PIs = T.sqrt(PI)
S3 = T.sqrt(T.const(3))


def erf(x):
    return T.func("erf", x)


def ei(x):
    return T.func("expi", x)


def setup(ctx, g, nang, src, facts=(), subs=None, extra=None, **kw):
    I = ctx.interp(facts)
    I.drop_tiny = 1e-9
    b, P = mkbuild(ctx, I, N_ang=nang, geometry=geom(I, g), source_type=srctype(I, *src), uncollided=1, **(kw or {}))
    u = construct(ctx, I, "uncollided_solution", {"build": b})
    return I, P, u


def at(ctx, I, u, x, t):
    f = I.method(u, "uncollided_solution")
    v = run(ctx, I, f, I.arr_of([x]), t)
    return where(f), list(I.cells(v))[0]


def ind(*cs):
    r = T.TRUE
    for c in cs:
        r = T.and_(r, c)
    return r


def plane(ctx):
    x, t = T.sym("x"), T.possym("t")
    I, P, u = setup(ctx, "slab", 4, (0,))
    w, v = at(ctx, I, u, x, t)
    ctx.equal("plane pulse", w, v, T.ite(T.le(T.abs_(x), t), P["source_strength"] * T.exp(-t) / (2 * t), T.ZERO), boundary=False)
    f = I.method(u, "plane_IC_uncollided_solution_integrated")
    a, h = T.sym("a"), T.possym("h")
    v = run(ctx, I, f, t, a, a + h)
    ctx.equal("plane pulse, zeroth moment", where(f), v, T.exp(-t) / (2 * t + P["x0"]) * T.sqrt(h))


def square_pulse(ctx):
    x, t = T.sym("x"), T.possym("t")
    I, P, u = setup(ctx, "slab", 4, (1,))
    x0 = P["x0"]
    w, v = at(ctx, I, u, x, t)
    ax = T.abs_(x)
    want = T.ite(T.le(t, x0 - ax), T.exp(-t),
                 T.ite(T.le(x0 + ax, t), T.exp(-t) * x0 / t,
                       T.ite(T.le(ax, t + x0), T.exp(-t) * (t + x0 - ax) / (2 * t), T.ZERO)))
    ctx.equal("square pulse", w, v, P["source_strength"] * want, boundary=False)


def gaussian_pulse(ctx):
    x, t = T.sym("x"), T.possym("t")
    I, P, u = setup(ctx, "slab", 4, (3,))
    s = P["sigma"]
    w, v = at(ctx, I, u, x, t)
    ctx.equal("gaussian pulse", w, v, P["source_strength"] * s * PIs * T.exp(-t) / (4 * t) * (erf((t - x) / s) + erf((t + x) / s)))


def square_source(ctx):
    x, t = T.sym("x"), T.possym("t")
    I, P, u = setup(ctx, "slab", 4, (2,))
    x0, t0 = P["x0"], P["t0"]
    w, v = at(ctx, I, u, x, t)
    ax = T.abs_(x)
    end = T.max_(T.ZERO, T.min_(T.min_(t, t0), t - ax + x0))
    clip = lambda q: T.max_(T.ZERO, T.min_(end, q))
    p1 = clip(t - x0 - ax)
    p2 = clip(t - x0 + ax)
    F1 = lambda tau: -x0 * ei(tau - t)
    F2 = lambda tau: ((ax - x0) * ei(tau - t) + T.exp(tau - t)) / 2
    F3 = lambda tau: T.exp(tau - t)
    want = F1(p1) - F1(T.ZERO) + F2(p2) - F2(p1) + F3(end) - F3(p2)
    want = T.ite(T.le(end, T.ZERO), T.ZERO, want)
    # a vanished piece contributes nothing
    ctx.equal("square source", w, v, P["source_strength"] * want, boundary=False)


def square_source_s2(ctx):
    """two directions with speed 1/sqrt(3); lengths written as sqrt(3) * y"""
    y, t, y0 = T.sym("y"), T.possym("t"), T.possym("y0")
    I, P, u = setup(ctx, "slab", 2, (2,), x0=S3 * y0)
    t0 = P["t0"]
    w, v = at(ctx, I, u, S3 * y, t)
    TT = T.min_(t, t0)
    F = lambda tau: T.exp(tau - t) / 2
    clip = lambda q: T.max_(T.ZERO, T.min_(TT, q))
    one = lambda yy: F(clip(t - 3 * (yy - y0))) - F(clip(t - 3 * (yy + y0)))
    ctx.equal("square source, two directions", w, v, P["source_strength"] * (one(y) + one(-y)), boundary=False)


def gaussian_source(ctx):
    x, t = T.sym("x"), T.possym("t")
    I, P, u = setup(ctx, "slab", 4, (5,), nt=2)
    s, t0 = P["sigma"], P["t0"]
    w, v = at(ctx, I, u, x, t)
    TT = T.min_(t, t0)
    ax = T.abs_(x)
    tot = T.ZERO
    for q, wt in zip(I.cells(P["t_quad"]), I.cells(P["t_ws"])):
        tau = TT / 2 * q + TT / 2
        sp = t - tau
        tot = tot + wt * T.exp(-sp) / (4 * sp) * (erf((sp - ax) / s) + erf((sp + ax) / s))
    tot = tot * TT / 2 * PIs * s * P["source_strength"]
    ctx.equal("gaussian source", w, v, tot, boundary=False)


def gaussian_source_s2(ctx):
    """narrow: the antiderivative has the right derivative in the emission end time and vanishes at zero"""
    x, t = T.sym("x"), T.possym("t")
    s = T.possym("sigma")
    for late in (True, False):
        t0 = T.possym("t0")
        facts = [T.lt(t0, t)] if late else [T.lt(t, t0)]
        I, P, u = setup(ctx, "slab", 2, (5,), facts=facts + [T.le(s, T.const(5))])
        w, v = at(ctx, I, u, x, t)
        v = C.prune(v, tuple(ctx._lits(facts + [T.le(s, T.const(5))])))
        A0 = P["source_strength"]
        if late:
            g = lambda tau: (T.exp(-(t - tau)) * (T.exp(-(x - (t - tau) / S3) ** 2 / s ** 2) + T.exp(-(x + (t - tau) / S3) ** 2 / s ** 2))) / 2
            got = T.diff(v, T.single_atom(t0))
            ctx.equal("gaussian source, two directions: rate in the switch-off time", w, got, A0 * g(t0), facts=facts)
            ctx.equal("gaussian source, two directions: nothing emitted yet", w, T.subst(v, {T.single_atom(t0): T.ZERO}), T.ZERO, facts=facts)
            ref = v
        else:
            ctx.equal("gaussian source, two directions: still on", w, v, T.subst(ref, {T.single_atom(t0): t}), facts=facts)
    # wide: quadrature in the emission time
    facts = [T.lt(T.const(5), s)]
    I, P, u = setup(ctx, "slab", 2, (5,), facts=facts, nt=2)
    t0 = P["t0"]
    w, v = at(ctx, I, u, x, t)
    TT = T.min_(t, t0)
    tot = T.ZERO
    for q, wt in zip(I.cells(P["t_quad"]), I.cells(P["t_ws"])):
        tau = TT / 2 * q + TT / 2
        sp = t - tau
        tot = tot + wt * T.exp(-sp) / 2 * (T.exp(-(x + sp / S3) ** 2 / s ** 2) + T.exp(-(x - sp / S3) ** 2 / s ** 2))
    ctx.equal("wide gaussian source, two directions", w, v, tot * TT / 2 * P["source_strength"], facts=facts)


def shell(ctx):
    r, t = T.possym("r"), T.possym("t")
    I, P, u = setup(ctx, "sphere", 4, (1,))
    x0 = P["x0"]
    w, v = at(ctx, I, u, r, t)
    mc = T.min_(T.ONE, T.max_(T.const(-1), (t / r + r / t - x0 ** 2 / (r * t)) / 2))
    n0 = 1 / (T.const(Fr(4, 3)) * PI * x0 ** 3) / (4 * PI)
    ctx.equal("spherical shell pulse", w, v, P["source_strength"] * n0 * 2 * PI * (1 - mc) * T.exp(-t), boundary=False)


def sedov(ctx):
    """the angular flux behind the boundary source obeys free flight through the moving opacity"""
    x, t, mu = T.sym("x"), T.possym("t"), T.possym("mu0")
    v0 = T.possym("v0sed")
    I, P, u = setup(ctx, "slab", 2, (), fake_sedov_v0=v0)
    f = I.method(u, "fake_sedov_integrand")
    psi = run(ctx, I, f, mu, t, x)
    w = where(f)
    x0 = P["x0"]
    # support: |x + x0| <= mu t and not yet switched off
    dist = T.abs_(x + x0)
    inside = T.and_(T.le(dist, mu * t), T.le(mu * (t - P["t0"]), dist))
    facts = [T.le(-x0, x)]
    bare = strip(psi)
    ctx.equal("boundary beam support", w, T.eq(psi, T.ZERO), T.not_(inside), facts=facts, boundary=False)
    # opacity along the beam
    s = construct(ctx, I, "sigma_integrator", {"build": construct_build(ctx, I, v0)})
    g = I.method(s, "sigma_function")
    sig = list(I.cells(run(ctx, I, g, I.arr_of([x]), t)))[0]
    ac = facts + [T.lt(dist, mu * t), T.lt(mu * (t - P["t0"]), dist)]
    lits = tuple(ctx._lits(ac))
    psi_in = C.prune(psi, lits)
    X, TT = T.single_atom(x), T.single_atom(t)
    lhs = T.diff(psi_in, TT) + mu * T.diff(psi_in, X) + sig * psi_in
    shock = [T.not_(T.eq(x + v0 * t, T.ZERO))]
    ctx.equal("boundary beam free flight", w, lhs, T.ZERO, facts=ac + ahead(x, t, mu, v0, x0), boundary=False)
    ctx.equal("boundary beam at the boundary", w, T.subst(psi_in, {X: -x0}), T.ONE, facts=[T.subst(c, {X: -x0}) for c in ac[1:]] + ahead(-x0, t, mu, v0, x0), boundary=False)


def ahead(x, t, mu, v0, x0):
    """the beam enters the domain behind the shock"""
    te = t - (x + x0) / mu
    return [T.le(v0 * te, x0)]


def construct_build(ctx, I, v0):
    b, P = mkbuild(ctx, I, sigma_func=opac(I, "fake_sedov"), fake_sedov_v0=v0)
    return b


def start(ctx):
    """at the time of the pulse the flux is the pulse itself; sources have emitted nothing yet"""
    x = T.sym("x")
    for name, g, nang, src, want in (
            ("square pulse", "slab", 4, (1,), lambda P, q: T.ite(T.le(T.abs_(q), P["x0"]), T.ONE, T.ZERO)),
            ("gaussian pulse", "slab", 4, (3,), lambda P, q: T.exp(-q * q / P["sigma"] ** 2)),
            ("square source", "slab", 4, (2,), lambda P, q: T.ZERO),
            ("square source, two directions", "slab", 2, (2,), lambda P, q: T.ZERO),
            ("gaussian source", "slab", 4, (5,), lambda P, q: T.ZERO),
            ("gaussian source, two directions", "slab", 2, (5,), lambda P, q: T.ZERO)):
        kw = dict(facts=[T.le(T.possym("sigma"), T.const(5))]) if "two" in name and src == (5,) else {}
        I, P, u = setup(ctx, g, nang, src, nt=2, **kw)
        f = I.method(u, "uncollided_solution")
        v = list(I.cells(run(ctx, I, f, I.arr_of([x]), T.ZERO)))[0]
        ctx.equal("start: %s" % name, where(f), v, P["source_strength"] * want(P, x), boundary=False, facts=kw.get("facts", ()))
    ctx.rule("at time zero a pulse is the prescribed profile and a source has emitted nothing")


def shell_start(ctx):
    """in numbers: inside the shell the pulse, outside nothing"""
    for r in (Fr(1, 100), Fr(1, 4), Fr(2, 5), Fr(3, 5), Fr(7)):
        b = ctx.interp()
        bb, P = mkbuild(ctx, b, N_ang=4, geometry=geom(b, "sphere"), source_type=srctype(b, 1), uncollided=1, x0=T.const(Fr(1, 2)), source_strength=T.ONE)
        u = construct(ctx, b, "uncollided_solution", {"build": bb})
        f = b.method(u, "uncollided_solution")
        v = list(b.cells(run(ctx, b, f, b.arr_of([T.const(r)]), T.ZERO)))[0]
        n0 = 1 / (T.const(Fr(4, 3)) * PI * T.const(Fr(1, 8))) if r < Fr(1, 2) else T.ZERO
        ctx.require("start: shell at r = %s" % r, abs(float(T.closed(T.num(v)).mid) - float(T.closed(T.num(n0)).mid)) < 1e-9, where(f), "at time zero the shell pulse is %s, expected %s" % (v, n0))


def strip(v):
    return v


def check(ctx):
    for n, f in (("plane", plane), ("square pulse", square_pulse), ("gaussian pulse", gaussian_pulse), ("square source", square_source),
                 ("square source s2", square_source_s2), ("gaussian source", gaussian_source), ("gaussian source s2", gaussian_source_s2),
                 ("shell", shell), ("sedov", sedov), ("start", start), ("shell start", shell_start)):
        ctx.section(n, f)
