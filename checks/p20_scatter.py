"""P20  scattering redistributes particles, it neither creates nor destroys them."""
from checks.common import *
from checks.rhs_common import Wired, sum_

LEVEL = "other"
EXPLANATION = ("Value graphs of the absorption and scattering vectors on the same cell for arbitrary angular fluxes and angular weights; the angular sum of the "
               "scattering gain is compared with the scattering share of the loss. The response of the whole update to the scattering cross section is compared too.")


def balance(ctx):
    for g in ("slab", "sphere"):
        for name in ("constant", "gaussian", "fake_sedov") if g == "slab" else ("constant",):
            shares(ctx, g, name, ((1, 1, 2, 2), (2, 0, 3, 2), (1, 3, 2, 2), (0, 2, 2, 1)))


def large(ctx):
    """many cells, many directions, high order: the code distinguishes none of them"""
    n = beyond(ctx, 34, *RHS_CODE)
    for g, name in (("slab", "constant"), ("slab", "gaussian"), ("sphere", "constant")):
        shares(ctx, g, name, ((0, 0, 18, 1), (5, 2, 2, 1), (0, 1, 2, n)))


def shares(ctx, g, name, sizes):
    for M, Ms, L, n in sizes:
        I = ctx.interp()
        b, P = mkbuild(ctx, I, M=M, Msigma=Ms, N_space=n, N_ang=L, sigma_func=opac(I, name), geometry=geom(I, g))
        s = construct(ctx, I, "sigma_integrator", {"build": b})
        ph = construct(ctx, I, "scalar_flux", {"build": b})
        E, hs = edges(I, n, free=some(n))
        ea = I.arr_of(E)
        t = T.possym("t")
        run(ctx, I, I.method(ph, "load_AAA"), I.getattr_obj(s, "AAA"))
        I.setattr_obj(s, "cs", I.tensor("c", (n, Ms + 1)))
        run(ctx, I, I.method(ph, "get_coeffs"), s)
        u = I.tensor("u", (L, M + 1))
        raw = list(I.cells(P["ws"]))
        for space in (range(n) if n < 9 else (0, n // 2, n - 1)):
            run(ctx, I, I.method(ph, "make_P"), u, space, E[space], E[space + 1])
            gain = list(I.cells(I.getattr_obj(ph, "scalar_flux_term")))
            if g == "sphere":
                gain = [x * P["sigma_s"] for x in gain]      # applied by the update
            loss = []
            for l in range(L):
                run(ctx, I, I.method(s, "make_vectors"), ea, I.arr_of(list(I.cells(u)[l])), space)
                loss.append(list(I.cells(I.getattr_obj(s, "VV"))))
            f = I.method(ph, "make_P")
            ctx.equal("gain = scattering share of the loss %s %s M=%d L=%d cell %d" % (g, name, M, L, space), where(f),
                      [sum_(raw) * x * P["sigma_t"] for x in gain],
                      [P["sigma_s"] * sum_([raw[l] * loss[l][i] for l in range(L)]) for i in range(M + 1)])
    ctx.rule("sum_l w_l gain == (sigma_s / sigma_t) sum_l w_l loss_l in every cell and order, for any positive weights and any angular flux")


def update(ctx):
    """d(update)/d(sigma_s), summed over angle with the weights, equals the loss at unit cross section"""
    for g in ("slab", "sphere"):
        kw = {} if g == "slab" else {}
        w = Wired(ctx, g, 2, 1, 2, **kw)
        V, u = w.state()
        ss = T.single_atom(w.P["sigma_s"])
        r = w.call(V).reshape(2, 2, 2)
        ws = w.weights()
        for k in range(2):
            for j in range(2):
                d = [T.diff(r[l, k, j], ss) for l in range(2)]
                ctx.equal("scattering response %s cell %d order %d" % (g, k, j), where(w.f), sum_([ws[l] * d[l] for l in range(2)]),
                          sum_([ws[l] * u[l, k, j] for l in range(2)]), boundary=False)
                ctx.equal("isotropic scattering %s cell %d order %d" % (g, k, j), where(w.f), d[0], d[1], boundary=False)
    ctx.rule("the part of the update proportional to the scattering cross section is the same in every direction and sums, over the angular weights, to the angular sum of the flux")


def check(ctx):
    ctx.section("balance", balance)
    ctx.section("update", update)
    ctx.section("large sizes", large)
