"""P14  numerical flux: upwinding relative to the moving edges, boundary data."""
from checks.common import *
from checks.p07_projection import quad
from sa.interp import Builtin

LEVEL = "other"
EXPLANATION = ("Value graph of the edge flux of every cell position (first, interior, last), geometry, boundary condition and symbolic edge velocity, "
               "compared with the upwind flux written from the traces of the basis functions.")


def trace(g, j, z, h):
    return Bleg(j, T.const(z), h) if g == "slab" else Bcheb(j, T.const(z), h)


def spec(I, P, g, u, ur, E, D, s, mu, left, right):
    """left/right: incoming trace at the outer edges or None for the neighbour"""
    N = len(E) - 1
    M1 = u.shape[1]
    h = E[s + 1] - E[s]
    own_l = sum_([trace(g, j, -1, h) * u[s, j] for j in range(M1)])
    own_r = sum_([trace(g, j, 1, h) * u[s, j] for j in range(M1)])
    if s > 0:
        lt = sum_([trace(g, j, 1, E[s] - E[s - 1]) * u[s - 1, j] for j in range(M1)])
    else:
        lt = left
    if s < N - 1:
        rt = sum_([trace(g, j, -1, E[s + 2] - E[s + 1]) * u[s + 1, j] for j in range(M1)])
    else:
        rt = right
    sl, sr = mu - D[s], mu - D[s + 1]
    al = E[s] ** 2 if g == "sphere" else T.ONE
    ar = E[s + 1] ** 2 if g == "sphere" else T.ONE
    pm = T.ite(T.lt(T.ZERO, sl), lt, own_l)
    pp = T.ite(T.lt(T.ZERO, sr), own_r, rt)
    return [ar * trace(g, i, 1, h) * sr * pp - al * trace(g, i, -1, h) * sl * pm for i in range(M1)]


def sum_(l):
    r = T.ZERO
    for x in l:
        r = r + x
    return r


def make(ctx, g, N, M, src=(), **kw):
    I = ctx.interp()
    kw["source_type"] = srctype(I, *src)
    b, P = mkbuild(ctx, I, M=M, N_space=N, geometry=geom(I, g), **kw)
    lu = construct(ctx, I, "LU_surf", {"build": b})
    E, hs = edges(I, N, start=T.ZERO if g == "sphere" else None, free=some(N))
    if g == "sphere":
        E[0] = T.possym("r0")
        E = [E[0]] + [E[0] + e for e in E[1:]]
    D = [T.sym("D", T.const(k)) for k in range(N + 1)]
    mesh = I.new_obj({"edges": I.arr_of(E), "Dedges": I.arr_of(D)})
    u = I.tensor("u", (N, M + 1))
    ur = I.tensor("ur", (M + 1,))
    return I, P, lu, E, D, mesh, u, ur


def project_trace(I, P, g, a, b, f, h, z, M):
    """trace at end z of the boundary data projected on the ghost cell [a, b]"""
    return sum_([quad(P, I, a, b, f, lambda q: Bleg(j, q, b - a)) * trace(g, j, z, h) for j in range(M + 1)])


def interior(ctx):
    edge_fluxes(ctx, [(M, N) for M in ((0, 2) if not ctx.thorough else (0, 1, 2, 3, 4)) for N in ((3,) if not ctx.thorough else (2, 3, 4))])


def large(ctx):
    edge_fluxes(ctx, [(0, beyond(ctx, 34, *RHS_CODE)), (8, 2), (order(ctx, 12, "numerical_flux.py"), 1)])


def edge_fluxes(ctx, sizes):
    mu, t = T.sym("mu"), T.possym("t")
    for g in ("slab", "sphere"):
        for M, N in sizes:
            if True:
                I, P, lu, E, D, mesh, u, ur = make(ctx, g, N, M)
                f = I.method(lu, "make_LU")
                U, UR = I.cells(u), I.cells(ur)
                for s in list(range(N)) + [0]:
                    run(ctx, I, f, t, mesh, u, s, mu, ur)
                    h = E[s + 1] - E[s]
                    refl = sum_([trace(g, j, -1, h) * UR[j] for j in range(M + 1)]) if g == "sphere" else T.ZERO
                    ctx.equal("edge flux %s M=%d cell %d of %d" % (g, M, s, N), where(f), I.cells(I.getattr_obj(lu, "LU")),
                              spec(I, P, g, U, UR, E, D, s, mu, refl, T.ZERO), boundary=False)
    ctx.rule("edge flux of every cell == basis-weighted (mu - edge velocity) x upwind trace, area factor r^2 in spherical geometry, vacuum "
             "outside, centre reflecting in spherical geometry")


def boundary(ctx):
    mu, t = T.sym("mu"), T.possym("t")
    for N, g, M in ((3, "slab", 0), (3, "slab", 2), (3, "sphere", 0), (3, "sphere", 2), (2, "slab", 1), (2, "sphere", 1)):
        for on in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if g == "sphere" and on != (0, 0):
                continue
            for unc, mov in ((0, 0), (0, 1), (1, 1)):
                I, P, lu, E, D, mesh, u, ur = make(ctx, g, N, M, boundary_source=1, boundary_on=list(on), uncollided=unc, moving=mov)
                f = I.method(lu, "make_LU")
                U, UR = I.cells(u), I.cells(ur)
                for s in range(N):
                    run(ctx, I, f, t, mesh, u, s, mu, ur)
                    h = E[s + 1] - E[s]
                    act = T.and_(T.le(t, P["t0"]), T.TRUE if not unc else T.FALSE)
                    off = sum_([trace(g, j, -1, h) * UR[j] for j in range(M + 1)]) if g == "sphere" else T.ZERO
                    cst = lambda x: P["boundary_source_strength"]
                    left = T.ite(T.and_(act, T.TRUE if on[0] else T.FALSE), project_trace(I, P, g, E[0] - h, E[0], cst, h, 1, M), off)
                    right = T.ite(T.and_(act, T.TRUE if on[1] else T.FALSE), project_trace(I, P, g, E[-1], E[-1] + h, cst, h, -1, M), T.ZERO)
                    ctx.equal("boundary source %s N=%d M=%d on=%s uncollided=%d moving=%d cell %d" % (g, N, M, on, unc, mov, s), where(f),
                              I.cells(I.getattr_obj(lu, "LU")), spec(I, P, g, U, UR, E, D, s, mu, left, right), boundary=False)
    ctx.rule("boundary source enters only the incoming trace of its own side, while t <= t0, and only without the uncollided treatment")


def mms(ctx):
    mu, t = T.sym("mu"), T.possym("t")
    g = "slab"
    for N, M in ((3, 0), (3, 2), (2, 1)):
        I, P, lu, E, D, mesh, u, ur = make(ctx, g, N, M, src=(4,))
        f = I.method(lu, "make_LU")
        U, UR = I.cells(u), I.cells(ur)
        psi = lambda x: T.exp(-x * x / 2) / (2 * (1 + t))
        for s in range(N):
            run(ctx, I, f, t, mesh, u, s, mu, ur)
            h = E[s + 1] - E[s]
            left = project_trace(I, P, g, E[0] - h, E[0], psi, h, 1, M)
            right = project_trace(I, P, g, E[-1], E[-1] + h, psi, h, -1, M)
            ctx.equal("manufactured boundary N=%d M=%d cell %d" % (N, M, s), where(f), I.cells(I.getattr_obj(lu, "LU")),
                      spec(I, P, g, U, UR, E, D, s, mu, left, right), boundary=False)
    ctx.rule("the manufactured problem takes its exact solution exp(-x^2/2)/(2(1+t)) as incoming data at both ends")


def check(ctx):
    ctx.section("interior", interior)
    ctx.section("large sizes", large)
    ctx.section("boundary", boundary)
    ctx.section("mms", mms)
