"""P19  reported fluxes: the expansion of the cell that contains the point, summed over angle, plus the uncollided flux once."""
from checks.common import *
from sa.interp import Builtin

LEVEL = "other"
EXPLANATION = ("Value graphs of the scalar-flux, energy-density and exit-distribution evaluation at a symbolic point of an arbitrary cell, outside the domain and "
               "at the ends, with symbolic coefficients, edges and weights, compared with the expansion of the containing cell.")


def basis(g, j, z, h):
    return Bleg(j, z, h) if g == "slab" else Bcheb(j, z, h)


def setup(ctx, g, N, M, L, xs, unc, rows=None, t=None):
    I = ctx.interp()
    E, hs = edges(I, N, free=some(N))
    u = I.tensor("u", (rows or L, N, M + 1))
    ws = I.vec("w", L, pos=True)
    t = T.possym("t") if t is None else t
    P = dict(t=t, N_ang=L, ws=ws, xs=I.arr_of(xs(E, hs)), u=u, M=M, edges=I.arr_of(E), uncollided=unc, geometry=geom(I, g))
    P = {k: I.to_val(v) for k, v in P.items()}
    o = construct(ctx, I, "make_output", P)
    stub = I.new_obj({"uncollided_solution": Builtin("u", lambda I, a, kw: I.ew(lambda x: T.app("U", x, I.scalar(a[1])), a[0]))})
    return I, E, hs, I.cells(u), list(I.cells(ws)), t, o, stub


def expand(g, uc, ang, k, M, x, E, hs):
    z = (2 * x - 2 * E[k] - hs[k]) / hs[k]
    r = T.ZERO
    for j in range(M + 1):
        r = r + uc[ang, k, j] * basis(g, j, z, hs[k])
    return r


def inside(k, frac="s"):
    """a point strictly inside cell k"""
    s, r = T.possym("s", T.const(k)), T.possym("r", T.const(k))

    def f(E, hs):
        return E[k] + hs[k] * s / (s + r)
    return f


def flux(ctx):
    cells(ctx, [(2, 1, 2), (3, 0, 2), (2, 2, 1)] if not ctx.thorough else [(2, 1, 2), (3, 0, 2), (2, 2, 1), (4, 2, 3), (2, 5, 2)])
    cells(ctx, [(2, 1, 2)], T.ZERO)


def large(ctx):
    """many cells, many directions, high order: the code distinguishes none of them"""
    n = beyond(ctx, 34, "make_phi.py")
    cells(ctx, [(n, 0, 2), (1, 12, 1), (1, 0, 18)])
    ends(ctx, ((n, 0, 1), (1, 12, 1), (1, 0, 18)))
    slope(ctx, n, 0, 1)
    slope(ctx, 2, 11, 1)


def cells(ctx, sizes, at=None):
    for g in ("slab", "sphere"):
        for N, M, L in sizes:
            for unc in (0, 1):
                for k in (range(N) if N < 9 else (0, N // 2, N - 1)):
                    pt = inside(k)
                    I, E, hs, uc, ws, t, o, stub = setup(ctx, g, N, M, L, lambda E, hs: [pt(E, hs), E[0] - 1, E[-1] + T.possym("beyond")], unc, t=at)
                    x = pt(E, hs)
                    facts = [T.lt(E[k], x), T.lt(x, E[k + 1])]
                    f = I.method(o, "make_phi")
                    r = run(ctx, I, f, stub)
                    psi = I.cells(I.getattr_obj(o, "psi_out"))
                    key = "%s N=%d M=%d L=%d unc=%d cell %d at %s" % (g, N, M, L, unc, k, t)
                    wp = [expand(g, uc, a, k, M, x, E, hs) for a in range(L)]
                    ctx.equal("angular flux " + key, where(f), [psi[a, 0] for a in range(L)], wp, facts=facts)
                    ctx.equal("angular flux outside " + key, where(f), [psi[a, c] for a in range(L) for c in (1, 2)], [T.ZERO] * (2 * L), facts=facts)
                    tot = T.ZERO
                    for a in range(L):
                        tot = tot + ws[a] * wp[a]
                    xs = [x, E[0] - 1, E[-1] + T.possym("beyond")]
                    U = [T.app("U", y, t) if unc else T.ZERO for y in xs]
                    ctx.equal("scalar flux " + key, where(f), list(I.cells(r)), [tot + U[0], U[1], U[2]], facts=facts)
                    ctx.equal("stored scalar flux " + key, where(f), list(I.cells(I.getattr_obj(o, "phi_out"))), [tot + U[0], U[1], U[2]], facts=facts)
    ctx.rule("psi(x) = sum_j u_j B_j of the cell that contains x, 0 outside the mesh; phi = sum_l w_l psi_l + uncollided(x, t) when that is on")


def at_edges(ctx):
    """end points belong to the end cells, interior edges to one of the two neighbours"""
    for g in ("slab", "sphere"):
        N, M, L = 2, 1, 1
        I, E, hs, uc, ws, t, o, stub = setup(ctx, g, N, M, L, lambda E, hs: [E[0], E[1], E[2]], 0)
        f = I.method(o, "make_phi")
        run(ctx, I, f, stub)
        psi = I.cells(I.getattr_obj(o, "psi_out"))
        ctx.equal("end points " + g, where(f), [psi[0, 0], psi[0, 2]], [expand(g, uc, 0, 0, M, E[0], E, hs), expand(g, uc, 0, N - 1, M, E[2], E, hs)])
        a, b = expand(g, uc, 0, 0, M, E[1], E, hs), expand(g, uc, 0, 1, M, E[1], E, hs)
        ctx.require("interior edge " + g, any(not C.mismatches(psi[0, 1], w, (), True, limit=1) for w in (a, b)), where(f), "value at an interior edge is neither neighbour's trace")
    ctx.rule("at the ends the trace of the end cell, at an interior edge the trace of one neighbour")


def several(ctx):
    """points in any order, several in one cell: each belongs to its own cell"""
    N, M, L = 3, 1, 1
    for g in ("slab", "sphere"):
        for order in ((2, 0, 1), (1, 0, 0), (0, 2, 2), (2, 1, 0), (1, 1, 2), (0, 1, 0)):
            def pts(E, hs):
                out = []
                for n, k in enumerate(order):
                    s, r = T.possym("s", T.const(n)), T.possym("r", T.const(n))
                    out.append(E[k] + hs[k] * s / (s + r))
                return out
            I, E, hs, uc, ws, t, o, stub = setup(ctx, g, N, M, L, pts, 1, rows=L + 1)
            xs = pts(E, hs)
            facts = [f for x, k in zip(xs, order) for f in (T.lt(E[k], x), T.lt(x, E[k + 1]))]
            f = I.method(o, "make_phi")
            arg = I.getattr_obj(o, "xs")
            r = run(ctx, I, f, stub)
            want = [expand(g, uc, 0, k, M, x, E, hs) for k, x in zip(order, xs)]
            key = "%s cells %s" % (g, order)
            ctx.equal("several points " + key, where(f), list(I.cells(r)), [ws[0] * v + T.app("U", x, t) for v, x in zip(want, xs)], facts=facts)
            f = I.method(o, "make_e")
            r = run(ctx, I, f)
            ctx.equal("several points, energy " + key, where(f), list(I.cells(r)), [expand(g, uc, L, k, M, x, E, hs) for k, x in zip(order, xs)], facts=facts)
            ctx.equal("points left as given " + key, where(f), list(I.cells(arg)), xs)
    ctx.rule("points in any order, several in the same cell: each is evaluated in its own cell, and the array of points is not written")


def energy(ctx):
    slope(ctx, 2, 1, 2)


def slope(ctx, N, M, L):
    for k in (range(N) if N < 9 else (0, N // 2, N - 1)):
        pt = inside(k)
        I, E, hs, uc, ws, t, o, stub = setup(ctx, "slab", N, M, L, lambda E, hs: [pt(E, hs), E[-1] + 1], 0, rows=L + 1)
        x = pt(E, hs)
        f = I.method(o, "make_e")
        r = run(ctx, I, f)
        facts = [T.lt(E[k], x), T.lt(x, E[k + 1])]
        ctx.equal("energy density cell %d" % k, where(f), list(I.cells(r)), [expand("slab", uc, L, k, M, x, E, hs), T.ZERO], facts=facts)
        d = I.cells(I.getattr_obj(o, "dx_e"))
        want = T.ZERO
        for j in range(M + 1):
            dz = T.subst(T.diff(legendre(j), T.single_atom(Z)), {T.single_atom(Z): (2 * x - 2 * E[k] - hs[k]) / hs[k]})
            want = want + uc[L, k, j] * dz * T.sqrt(T.const(2 * j + 1)) / T.sqrt(hs[k]) * 2 / hs[k]
        ctx.equal("energy slope cell %d" % k, where(f), [d[0]], [want], facts=facts)
    ctx.rule("energy density: last row of the state, same containing-cell rule; its slope is the derivative of the expansion")


def exits(ctx):
    ends(ctx, ((2, 1, 2), (1, 1, 2), (3, 2, 1)))
    ends(ctx, ((2, 1, 2),), T.ZERO)


def ends(ctx, sizes, at=None):
    for g in ("slab", "sphere"):
        for N, M, L in sizes:
            for unc in (0, 1):
                I, E, hs, uc, ws, t, o, stub = setup(ctx, g, N, M, L, lambda E, hs: [E[0]], unc, t=at)
                f = I.method(o, "get_exit_dist")
                r = run(ctx, I, f, stub)
                parts = I.iterate(r)
                d, ph = I.cells(parts[0]), I.cells(parts[1])
                key = "%s N=%d M=%d L=%d unc=%d at %s" % (g, N, M, L, unc, t)
                wl = [expand(g, uc, a, 0, M, E[0], E, hs) for a in range(L)]
                wr = [expand(g, uc, a, N - 1, M, E[-1], E, hs) for a in range(L)]
                ctx.equal("exit distribution " + key, where(f), [d[a, s] for a in range(L) for s in (0, 1)], [v for a in range(L) for v in (wl[a], wr[a])])
                tl, tr = T.ZERO, T.ZERO
                for a in range(L):
                    tl, tr = tl + ws[a] * wl[a], tr + ws[a] * wr[a]
                U = [T.app("U", e, t) if unc else T.ZERO for e in (E[0], E[-1])]
                ctx.equal("exit scalar flux " + key, where(f), list(ph), [tl + U[0], tr + U[1]])
    ctx.rule("exit distribution: traces of the first and last cell at the two ends, per angle; the exit scalar flux is their angular sum plus the uncollided flux there")


def check(ctx):
    ctx.section("flux", flux)
    ctx.section("edges", at_edges)
    ctx.section("several points", several)
    ctx.section("energy", energy)
    ctx.section("exits", exits)
    ctx.section("large sizes", large)
