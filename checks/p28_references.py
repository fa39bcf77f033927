"""P28  built-in reference solutions solve the transport equation they are a reference for."""
from math import exp, log
from checks.common import *
from checks.mesh_common import Mesh, CONFIGS
from sa.interp import Builtin
import sa.npmodel as npmodel

LEVEL = "other"
EXPLANATION = ("Value graphs of the reference solutions the repository carries (manufactured solution, blast wave, steady boundary sources) are differentiated symbolically; "
               "streaming plus absorption minus gains, with the opacity and source graphs of the solver's own components, must vanish region by region.")


def sym_atom(v):
    (m, c), = v.key
    return T._atom_list[m[0][0]]


def manufactured(ctx):
    """initial state, boundary flux and source of the manufactured problem belong to one solution"""
    x, t, mu = T.sym("x"), T.possym("t"), T.sym("mu")
    I = ctx.interp()
    b, P = mkbuild(ctx, I, source_type=srctype(I, 4), uncollided=0)
    nf = construct(ctx, I, "LU_surf", {"build": b})
    so = construct(ctx, I, "source_class", {"build": b})
    fb = I.method(nf, "BC_func")
    bc = I.cells(run(ctx, I, fb, I.arr_of([x]), t)).reshape(-1)[0]
    ic = construct(ctx, I, "IC_func", dict(P, x1=T.ZERO))
    fi = I.method(ic, "function")
    g = I.cells(run(ctx, I, fi, I.arr_of([x]), mu)).reshape(-1)[0]
    ctx.equal("initial flux is the boundary flux at time 0", where(fi), g, T.subst(bc, {sym_atom(t): T.ZERO}))
    fs = I.method(so, "MMS_source")
    s = I.cells(run(ctx, I, fs, I.arr_of([x]), t, mu)).reshape(-1)[0]
    inside = T.le(T.abs_(x), t + P["x0"])
    # unit opacities: the source is halved over the two directions, like every slab source
    res = T.diff(bc, sym_atom(t)) + mu * T.diff(bc, sym_atom(x)) + bc - bc
    ctx.equal("source balances the solution", where(fs), s / 2, T.ite(inside, res, T.ZERO), boundary=False)
    # the domain the solution lives on
    m = Mesh(ctx, *[c for c in CONFIGS if c[0] == "manufactured"][0], edge_v=T.ONE)
    m.move(t)
    ctx.equal("the mesh spans the support", where(m.f), [m.edges[0], m.edges[-1]], [T.ZERO - m.P["x0"] - t, m.P["x0"] + t], boundary=False)
    ctx.rule("manufactured solution f: initial state f(x, 0), boundary flux f(x, t), source df/dt + mu df/dx + f - f (unit opacities, isotropic f) on |x| <= x0 + t, the span of the mesh")


def runner(ctx, I, **attrs):
    r = run(ctx, I, I.func("run"))
    for k, v in attrs.items():
        I.setattr_obj(r, k, v)
    return r


def profile(ctx, I0, name, x, t, v0):
    """the solver's opacity at (x, t)"""
    I = ctx.interp()
    b, P = mkbuild(ctx, I, M=0, Msigma=0, N_space=1, sigma_func=opac(I, name), fake_sedov_v0=v0)
    s = construct(ctx, I, "sigma_integrator", {"build": b})
    f = I.method(s, "sigma_function")
    return I.cells(run(ctx, I, f, I.arr_of([x]), t)).reshape(-1)[0]


def blast(ctx):
    """streaming through the moving blast-wave opacity from the left boundary x = -5"""
    for mu, v0 in ((1, Fr(1, 4)), (Fr(3, 5), Fr(-1, 4)), (Fr(3, 5), Fr(1, 10)), (Fr(1, 7), 2), (1, 0)):
        one_blast(ctx, T.const(mu), T.const(v0), "blast wave, mu %s, front speed %s" % (mu, v0))
    ctx.rule("blast wave: (d/dt + mu d/dx + opacity(x, t)) psi == 0 behind and ahead of the front; psi == 1 at the boundary, 0 ahead of the particles, after the source and for mu < 0")


def value(v):
    """the number a closed term stands for"""
    z = T.closed(T.num(v))
    return float(z.mid)


def one_blast(ctx, mu, v0, title):
    x, t, off = T.sym("x"), T.possym("t"), T.possym("toff")
    I = ctx.interp()
    I.ext["numpy.isnan"] = lambda I, a, kw: T.FALSE
    r = runner(ctx, I, v0=v0, t0_source=off)
    f = I.method(r, "fake_sedov")
    v = run(ctx, I, f, mu, t, x)
    left = T.const(-5)
    born = (left - x) / mu + t
    sig = profile(ctx, I, "fake_sedov", x, t, v0)
    # the wave front had not passed the boundary when the particles entered
    facts = [T.lt(T.ZERO, v0 + mu), T.lt(left, T.ZERO - v0 * born), T.lt(left, x), T.lt(T.ZERO, born), T.lt(born, off)]
    eq = T.diff(v, sym_atom(t)) + mu * T.diff(v, sym_atom(x)) + sig * v
    ctx.equal(title + ": streaming balances absorption", where(f), eq, T.ZERO, facts=facts, boundary=False)
    J = ctx.interp()
    J.ext["numpy.isnan"] = lambda I, a, kw: T.FALSE
    q = runner(ctx, J, v0=v0, t0_source=off)
    fq = J.method(q, "fake_sedov")
    edge = run(ctx, J, fq, mu, t, left)
    ctx.equal(title + ": unit flux enters while the source is on", where(f), edge, T.ONE, facts=[T.lt(T.ZERO, v0 + mu), T.lt(left, T.ZERO - v0 * t), T.lt(t, off)], boundary=False)
    ctx.equal(title + ": nothing ahead of the particles", where(f), v, T.ZERO, facts=[T.lt(born, T.ZERO), T.lt(left, x)], boundary=False)
    ctx.equal(title + ": nothing after the source is off", where(f), v, T.ZERO, facts=[T.lt(off, born), T.lt(left, x), T.lt(T.ZERO, off)], boundary=False)
    K = ctx.interp()
    K.ext["numpy.isnan"] = lambda I, a, kw: T.FALSE
    k = runner(ctx, K, v0=v0, t0_source=off)
    fk = K.method(k, "fake_sedov")
    back = run(ctx, K, fk, T.ZERO - mu, t, x)
    # however thick the layer: the attenuation is that of the solver's opacity along the particle's path
    for far in (1, 4, 20, 60, 130):
        for late in (Fr(1, 10), 1, 30):
            X, tt = T.const(far) * mu - 5, T.const(far) + late
            at = {sym_atom(x): X, sym_atom(t): tt, sym_atom(off): T.const(late) + 50}
            if any(T.subst(z, at) is T.FALSE for z in facts):
                continue
            n, depth = 400, 0.0
            for k in range(n):
                s = T.const(Fr(2 * k + 1, 2 * n) * far)       # time since the particle entered
                depth += value(T.subst(sig, {sym_atom(x): s * mu - 5, sym_atom(t): s + late})) * far / n
            if depth > 36:
                continue
            got = value(T.subst(v, at))
            ctx.require("%s: attenuation, %s flown, entered at %s" % (title, far, late), got > 0 and abs(log(got) + depth) < 0.01 + far * 1.2 / n, where(f),
                        "the flux is %g behind a layer of optical depth %.6g (attenuation %g)" % (got, depth, exp(-depth)))
    ctx.equal(title + ": nothing moves backwards", where(f), back, T.ZERO, facts=[T.lt(left, x)], boundary=False)


def gaussian_shock(ctx):
    """optical depth through a Gaussian opacity that moves with constant speed"""
    x, t, mu, s = T.sym("x"), T.possym("t"), T.possym("mu"), T.sym("s")
    I = ctx.interp()
    seen = []

    def quad(I, a, kw):
        names = ["func", "a", "b", "args"]
        d = dict(zip(names, a))
        d.update(kw)
        seen.append((run(ctx, I, d["func"], s, *I.iterate(d["args"])), I.scalar(d["a"]), I.scalar(d["b"])))
        return (T.sym("depth"), T.sym("err"))
    I.ext["scipy.integrate.quad"] = quad
    r = runner(ctx, I)
    f = I.method(r, "moving_gaussian_shock")
    v = run(ctx, I, f, t, x, mu)
    ctx.require("gaussian shock: one optical depth", len(seen) >= 1, where(f), "no integral is evaluated")
    g, lo, hi = seen[0]
    ctx.equal("gaussian shock: from the boundary to the point", where(f), [lo, hi], [T.const(-5), x])
    arg = s + (t + (s - x) / mu) / 4
    ctx.equal("gaussian shock: opacity where and when the particle passes", where(f), g, T.exp(T.ZERO - arg * arg / 8))
    ctx.equal("gaussian shock: attenuation behind the particles' front", where(f), v, T.ite(T.le(T.abs_(x + 5), mu * t), T.exp(T.ZERO - T.sym("depth") / mu), T.ZERO), boundary=False)
    ctx.rule("moving Gaussian: exp(-integral of the opacity along the particle's path / mu) within the particles' reach")


def steady(ctx):
    """steady Gaussian opacity with unit inflow at the left end"""
    n = 3
    xs = [T.sym("x", T.const(k)) for k in range(n)]
    mus = [T.ZERO - T.possym("m", T.const(0)), T.possym("m", T.const(1))]
    ws = [T.possym("w", T.const(k)) for k in range(2)]
    x0 = T.possym("x0")
    I = ctx.interp()
    plots = []
    I.ext["matplotlib.pyplot.plot"] = lambda I, a, kw: plots.append(list(a))
    r = runner(ctx, I, xs=I.arr_of(xs), mus=I.arr_of(mus), ws=I.arr_of(ws), x0=x0)
    f = I.method(r, "steady_state_gaussian_benchmark")
    run(ctx, I, f)
    ctx.require("steady Gaussian: one profile", len(plots) == 1, where(f), "%d profiles are shown" % len(plots))
    phi = cells(I, plots[0][1])
    for k in range(n):
        # d(ln psi)/dx == -opacity / |mu|
        sig = profile(ctx, I, "gaussian", xs[k], T.possym("t"), T.sym("v0"))
        ctx.equal("steady Gaussian: point %d" % k, where(f), T.diff(phi[k], sym_atom(xs[k])) * (T.ZERO - mus[0]), T.ZERO - sig * phi[k])
        ctx.equal("steady Gaussian: inflow %d" % k, where(f), T.subst(phi[k], {sym_atom(xs[k]): T.ZERO - x0}), ws[0])
    ctx.rule("steady Gaussian opacity: |mu| d(psi)/dx == -opacity psi with the solver's own opacity, unit inflow at -x0")


def check(ctx):
    ctx.section("manufactured", manufactured)
    ctx.section("blast wave", blast)
    ctx.section("gaussian shock", gaussian_shock)
    ctx.section("steady", steady)
