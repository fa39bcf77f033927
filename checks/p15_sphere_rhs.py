"""P15  spherical right-hand side and the angular redistribution term."""
from checks.rhs_common import *
from checks.p07_projection import quad
from sa.npmodel import linalg_inv

LEVEL = "other"
EXPLANATION = ("Value graph of the whole right-hand side in spherical geometry with the real edge flux, source, opacity, scalar flux and symbolic "
               "coefficient tables, compared component by component with the discrete spherical transport equation.")


def angular(mus, u, k):
    """(F_{k+1/2} - F_{k-1/2}) / (mid-point spacing), F = (1-mu^2) psi, zero at mu = -1, 1"""
    n = len(mus)
    mid = lambda i: (mus[i] + mus[i + 1]) / 2
    F = lambda i: (1 - mid(i) ** 2) * (u[i] + u[i + 1]) / 2
    hi = (mid(k), F(k)) if k < n - 1 else (T.ONE, T.ZERO)
    lo = (mid(k - 1), F(k - 1)) if k > 0 else (T.const(-1), T.ZERO)
    return (hi[1] - lo[1]) / (hi[0] - lo[0])


def sphere(ctx):
    balance(ctx, ((0, 2, 4), (0, 3, 2), (1, 2, 2)) if not ctx.thorough else ((0, 3, 4), (0, 2, 8), (1, 2, 4), (2, 2, 2)), (((1,), 1), ((1,), 0)))


def large(ctx):
    balance(ctx, ((0, beyond(ctx, 34, *RHS_CODE), 2), (0, 1, 18), (4, 1, 2)), (((1,), 1),))


def angles(ctx):
    # directions that are numbers: whatever the code requires of them is decided
    for n in (2, 4, 6, 8, 10):
        mus = [T.const(Fr(2 * k - n + 1, n)) for k in range(n)]
        balance(ctx, ((0, 1, n),), (((1,), 1),), mus)


def balance(ctx, sizes, sources, mus=None):
    for M, N, nang in sizes:
        for src, unc in sources:
            w = Wired(ctx, "sphere", N, M, nang, src=src, uncollided=unc, free=some(N), mus=mus)
            I, P, t = w.I, w.P, w.t
            V, U = w.state()
            ws = w.weights()
            got = w.call(V)
            d = {"build": w.b}
            d.update(tables(I, M))
            g = construct(ctx, I, "G_L", d)
            want = onp.empty((nang, N, M + 1), dtype=object)
            for s in range(N):
                h = w.E[s + 1] - w.E[s]
                run(ctx, I, I.method(g, "make_all_matrices"), w.E[s], w.E[s + 1], w.D[s], w.D[s + 1])
                X = {n: I.cells(I.getattr_obj(g, n)).copy() for n in ("L", "G", "Mass", "J", "MPRIME")}
                Minv = I.cells(linalg_inv(I, [I.getattr_obj(g, "Mass")], {}))
                for k in range(nang):
                    ref = U[nang - 1 - k, 0]
                    # the centre edge receives the mirrored angle
                    left = sum_([Bcheb(j, T.const(-1), w.E[1] - w.E[0]) * ref[j] for j in range(M + 1)])
                    lu = spec(I, P, "sphere", U[k], None, w.E, w.D, s, w.mus[k], left, T.ZERO)
                    dt = [angular(w.mus, U[:, s, j], k) for j in range(M + 1)]
                    S = [quad(P, I, w.E[s], w.E[s + 1], lambda x: T.app("U", x, t), lambda z: Bcheb(i, z, h), lambda x, z: x * x * T.sqrt(1 - z * z))
                         if unc else T.ZERO for i in range(M + 1)]
                    r = []
                    for i in range(M + 1):
                        v = T.ZERO - lu[i] + P["sigma_s"] * S[i] / 2
                        for j in range(M + 1):
                            v = v + (X["G"][i, j] + w.mus[k] * X["L"][i, j] - X["MPRIME"][i, j]) * U[k, s, j] - X["J"][i, j] * dt[j]
                        r.append(v)
                    for i in range(M + 1):
                        phi = sum_([ws[l] * U[l, s, i] for l in range(nang)])
                        want[k, s, i] = (sum_([Minv[i, j] * r[j] for j in range(M + 1)]) + P["sigma_s"] * phi - P["sigma_t"] * U[k, s, i])
            # inner edge moving outwards makes the centre datum matter for every angle: only inward-reflected angles are specified
            fixed = {T.single_atom(w.D[0]): T.ZERO}
            ctx.equal("spherical rhs M=%d N=%d angles=%d uncollided=%d" % (M, N, nang, unc), where(w.f),
                      [T.subst(x, fixed) for x in got.reshape(-1)], [T.subst(x, fixed) for x in want.reshape(-1)], boundary=False)
    ctx.rule("sphere: Mass dU/dt == -edge flux + (mu L + G - MPRIME) U - J dF + S/2 with the angular flux difference dF, then + sigma_s sum_l w_l U_l - "
             "sigma_t U; the centre edge reflects the mirrored angle; every angle, cell and order")


def check(ctx):
    ctx.section("sphere", sphere)
    ctx.section("large sizes", large)
    ctx.section("angles", angles)
