"""P31  slab: total particle balance on a moving mesh, and exactness on polynomial fluxes of the cell's order."""
from checks.rhs_common import *
from checks.p17_slab_rhs import quadB, A0

LEVEL = "other"
EXPLANATION = ("Value graph of the whole right-hand side in slab geometry on arbitrarily moving cells. The weighted sum of its zeroth moments is compared with leakage, "
               "absorption and source; on polynomial fluxes it is compared with the time derivative of their exact cell projections.")


def total(ctx):
    for M, N, nang in ((0, 3, 2), (1, 2, 2), (2, 2, 2)) if not ctx.thorough else ((0, 2, 4), (1, 2, 4), (1, 4, 2), (2, 3, 2), (3, 2, 2)):
        for src, unc in (((), 0), ((2,), 0), ((1,), 1)):
            w = Wired(ctx, "slab", N, M, nang, src=src, uncollided=unc)
            P, I, t = w.P, w.I, w.t
            V, U = w.state()
            r = onp.array(list(w.call(V).reshape(-1)), dtype=object).reshape(nang, N, M + 1)
            ws = w.weights()
            if src == (2,):
                S = lambda s: quadB(w, s, 0, lambda x: T.ite(T.and_(T.le(T.abs_(x), P["x0"]), T.lt(t, P["t0"])), A0, T.ZERO))
            elif unc:
                S = lambda s: P["sigma_s"] * quadB(w, s, 0, lambda x: T.app("U", x, t))
            else:
                S = lambda s: T.ZERO
            h = [w.E[s + 1] - w.E[s] for s in range(N)]
            rate = sum_([ws[k] * (T.sqrt(h[s]) * r[k, s, 0] + U[k, s, 0] * (w.D[s + 1] - w.D[s]) / (2 * T.sqrt(h[s]))) for k in range(nang) for s in range(N)])
            out = T.ZERO
            for k in range(nang):
                sl, sr = w.mus[k] - w.D[0], w.mus[k] - w.D[N]
                pl = sum_([Bleg(j, T.const(-1), h[0]) * U[k, 0, j] for j in range(M + 1)])
                pr = sum_([Bleg(j, T.ONE, h[N - 1]) * U[k, N - 1, j] for j in range(M + 1)])
                out = out + ws[k] * (T.ite(T.lt(T.ZERO, sr), sr * pr, T.ZERO) + T.ite(T.lt(sl, T.ZERO), T.ZERO - sl * pl, T.ZERO))
            content = sum_([ws[k] * T.sqrt(h[s]) * U[k, s, 0] for k in range(nang) for s in range(N)])
            gain = sum_([T.sqrt(h[s]) * S(s) for s in range(N)]) / 2
            ctx.equal("balance M=%d N=%d angles=%d source=%s uncollided=%d" % (M, N, nang, src, unc), where(w.f), [rate],
                      [gain - out - (P["sigma_t"] - P["sigma_s"]) * content], boundary=False)
    ctx.rule("d/dt of the particle content == source - leakage through the outer edges relative to their motion - (sigma_t - sigma_s) content")


def polynomial(ctx):
    for M in (0, 1, 2) if not ctx.thorough else (0, 1, 2, 3, 4):
        w = Wired(ctx, "slab", 3, M, 2)
        P, I = w.P, w.I
        a, b = T.sym("cell_a"), T.sym("cell_b")
        x = (a + b) / 2 + (b - a) * Z / 2

        def proj(f, j):
            return (b - a) / 2 * int_z(f * legendre(j)) * T.sqrt(T.const(2 * j + 1)) / T.sqrt(b - a)

        def at(v, s):
            return T.subst(v, {T.single_atom(a): w.E[s], T.single_atom(b): w.E[s + 1]})
        amp = [T.sym("amp", T.const(k)) for k in range(2)]
        ws = w.weights()
        for p in range(M + 1):
            f, df = x ** p if p else T.ONE, p * x ** (p - 1) if p > 1 else T.const(p)
            c = [proj(f, j) for j in range(M + 1)]
            u = onp.empty((2, 3, M + 1), dtype=object)
            for k, s, j in onp.ndindex(2, 3, M + 1):
                u[k, s, j] = amp[k] * at(c[j], s)
            r = onp.array(list(w.call(I.arr_of(list(u.reshape(-1)))).reshape(-1)), dtype=object).reshape(2, 3, M + 1)
            want, got = [], []
            av = sum_([ws[l] * amp[l] for l in range(2)])
            for k in range(2):
                for j in range(M + 1):
                    move = T.diff(c[j], T.single_atom(a)), T.diff(c[j], T.single_atom(b))
                    got.append(r[k, 1, j])
                    want.append(amp[k] * (at(move[0], 1) * w.D[1] + at(move[1], 1) * w.D[2] - w.mus[k] * at(proj(df, j), 1))
                                + (P["sigma_s"] * av - P["sigma_t"] * amp[k]) * at(c[j], 1))
            ctx.equal("polynomial of degree %d in cells of order %d" % (p, M), where(w.f), got, want, boundary=False)
    ctx.rule("cell coefficients of a polynomial of the cell's order change as the exact projections of -mu psi' - sigma_t psi + sigma_s mean(psi), motion of the cell included")


def check(ctx):
    ctx.section("total", total)
    ctx.section("polynomial", polynomial)
