"""P17  slab right-hand side: the weak form of the transport equation on the moving cells."""
from checks.rhs_common import *

LEVEL = "other"
EXPLANATION = ("Value graph of the whole right-hand side in slab geometry, all collaborators included (mesh, matrices, edge flux, source, opacity, scalar "
               "flux), compared component by component with the weak form of the moving-mesh transport equation.")
A0 = T.sym("A0")


def weak(w, U, S, sig, scat, left=T.ZERO, right=T.ZERO):
    """expected derivative, [angle, cell, order]"""
    M, N, P, I = w.M, w.N, w.P, w.I
    out = onp.empty((w.nang, N, M + 1), dtype=object)
    ws = w.weights()
    for s in range(N):
        h = w.E[s + 1] - w.E[s]
        L, G = want_L(M, h), want_G(M, h, w.D[s], w.D[s + 1])
        phi = [sum_([ws[l] * U[l, s, j] for l in range(w.nang)]) for j in range(M + 1)]
        for k in range(w.nang):
            lu = spec(I, P, "slab", U[k], None, w.E, w.D, s, w.mus[k], left, right)
            for i in range(M + 1):
                r = T.ZERO - lu[i]
                for j in range(M + 1):
                    r = r + (G[i][j] + w.mus[k] * L[i][j]) * U[k, s, j]
                    r = r - sig(s, i, j) * U[k, s, j] + scat(s, i, j) * phi[j]
                out[k, s, i] = r + S(k, s, i) / 2
    return out


def constant(ctx):
    balance(ctx, ((0, 3, 2), (1, 2, 4), (2, 2, 2)) if not ctx.thorough else ((0, 4, 4), (1, 3, 4), (2, 2, 4), (3, 2, 2)),
            (((), 0), ((2,), 0), ((1,), 1), ((4,), 0)), 2)


def large(ctx):
    """many cells, many directions, high order: the code distinguishes none of them"""
    n = beyond(ctx, 34, *RHS_CODE)
    balance(ctx, ((0, n, 2), (0, 1, 18), (order(ctx, 12, *RHS_CODE), 1, 2)), (((1,), 1),), 1)
    if ctx.thorough:
        balance(ctx, ((1, 12, 2), (1, 1, 8), (4, 2, 2)), (((2,), 0),), 2)


def angles(ctx):
    # directions that are numbers: whatever the code requires of them is decided
    for n in (2, 4, 6, 8, 10, 12, 14):
        mus = [T.const(Fr(2 * k - n + 1, n)) for k in range(n)]
        balance(ctx, ((0, 2, n),), (((), 0),), 1, mus)


def balance(ctx, sizes, sources, reps, mus=None):
    for M, N, nang in sizes:
        for src, unc in sources:
            w = Wired(ctx, "slab", N, M, nang, src=src, uncollided=unc, free=some(N), mus=mus)
            P, I, t = w.P, w.I, w.t
            V, U = w.state()
            if src == (2,):
                S = lambda k, s, i: quadB(w, s, i, lambda x: T.ite(T.and_(T.le(T.abs_(x), P["x0"]), T.lt(t, P["t0"])), A0, T.ZERO))
            elif unc:
                S = lambda k, s, i: P["sigma_s"] * quadB(w, s, i, lambda x: T.app("U", x, t))
            elif src == (4,):
                S = lambda k, s, i: quadB(w, s, i, lambda x: T.ite(T.le(T.abs_(x), t + P["x0"]),
                                          -(1 + (1 + t) * x * w.mus[k]) * T.exp(-x * x / 2) / (1 + t) ** 2, T.ZERO))
            else:
                S = lambda k, s, i: T.ZERO
            left = right = T.ZERO
            if src == (4,):
                psi = lambda x: T.exp(-x * x / 2) / (2 * (1 + t))
                h0, h1 = w.E[1] - w.E[0], w.E[-1] - w.E[-2]
                left = project_trace(I, P, "slab", w.E[0] - h0, w.E[0], psi, h0, 1, M)
                right = project_trace(I, P, "slab", w.E[-1], w.E[-1] + h1, psi, h1, -1, M)
            d = lambda i, j: T.ONE if i == j else T.ZERO
            want = weak(w, U, S, lambda s, i, j: d(i, j) * P["sigma_t"], lambda s, i, j: d(i, j) * P["sigma_s"], left, right)
            for rep in range(reps):
                got = w.call(V)
                key = "slab rhs M=%d N=%d angles=%d source=%s uncollided=%d call %d" % (M, N, nang, src, unc, rep)
                if len(got.reshape(-1)) != want.size:
                    ctx.require(key, False, where(w.f), "%d components where %d are required" % (len(got.reshape(-1)), want.size))
                    continue
                ctx.equal(key, where(w.f), got, want, boundary=False)
    ctx.rule("slab: dU/dt == G U + mu L U - edge flux - sigma_t U + sigma_s sum_l w_l U_l + S/2 for every angle, cell and order, with G and L the "
             "exact cell integrals, the flux upwind, weights summing to one; a second call with the same state gives the same result")


def quadB(w, s, i, f):
    from checks.p07_projection import quad
    return quad(w.P, w.I, w.E[s], w.E[s + 1], f, lambda z: Bleg(i, z, w.E[s + 1] - w.E[s]))


def noscatter(ctx):
    w = Wired(ctx, "slab", 2, 1, 2, sigma_s=T.ZERO)
    V, U = w.state()
    got = w.call(V)
    d = lambda i, j: T.ONE if i == j else T.ZERO
    want = weak(w, U, lambda k, s, i: T.ZERO, lambda s, i, j: d(i, j) * w.P["sigma_t"], lambda s, i, j: T.ZERO)
    ctx.equal("pure absorber", where(w.f), got, want, boundary=False)


def variable(ctx):
    """space-dependent opacity, exact two-point Gauss rule"""
    q = 1 / T.sqrt(T.const(3))
    M = 1
    for Ms in (0, 1):
        for name, form in (("gaussian", lambda x: T.exp(-x * x / 8)),):
            w = Wired(ctx, "slab", 2, M, 2, sigma_func=name, Msigma=Ms, xs_quad=[T.ZERO - q, q], ws_quad=[1, 1])
            V, U = w.state()
            B = [T.sqrt(T.const(2 * n + 1)) * legendre(n) for n in range(3)]

            def op(s, i, j):
                h = w.E[s + 1] - w.E[s]
                r = T.ZERO
                for k in range(Ms + 1):
                    aaa = int_z(B[i] * B[j] * B[k]) / 2
                    r = r + quadB(w, s, k, form) * aaa / T.sqrt(h)
                return r
            got = w.call(V)
            want = weak(w, U, lambda k, s, i: T.ZERO, lambda s, i, j: op(s, i, j) * w.P["sigma_t"], lambda s, i, j: op(s, i, j) * w.P["sigma_s"])
            facts = [T.not_(T.eq(e, T.ZERO)) for e in w.E]
            ctx.equal("variable opacity Msigma=%d" % Ms, where(w.f), got, want, boundary=False, facts=facts)
    ctx.rule("space-dependent opacity multiplies absorption and scattering through the exact triple-product integrals of the basis")


def check(ctx):
    ctx.section("constant opacity", constant)
    ctx.section("large sizes", large)
    ctx.section("angles", angles)
    ctx.section("no scattering", noscatter)
    ctx.section("variable opacity", variable)
