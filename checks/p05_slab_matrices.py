"""P05  slab gradient and mesh-motion matrices."""
from checks.common import *

LEVEL = "other"
EXPLANATION = ("Value graph of the matrix assembler in slab geometry for several expansion orders; every entry compared with the "
               "exact integral over the moving cell, and the assembly for a second cell compared with a fresh assembly.")


def slab(n):
    return T.sqrt(T.const(2 * n + 1)) * legendre(n)


def want_L(M, h):
    return [[int_z(ddz(slab(i)) * slab(j)) / h for j in range(M + 1)] for i in range(M + 1)]


def want_G(M, h, ap, bp):
    hp = bp - ap
    zt = T.ZERO - (ap + bp) / h - Z * hp / h
    return [[int_z((ddz(slab(i)) * zt - slab(i) * hp / (2 * h)) * slab(j)) / 2 for j in range(M + 1)] for i in range(M + 1)]


def tables(I, M):
    k = M + 1
    t3 = lambda n: I.tensor("c" + str(n), (k, k, n))
    names = {"Mass_denom": (k, k), "J_denom": (k, k), "G_denom": (k, k), "L_denom": (k, k), "VV_denom": (k, k, k),
             "Mass_coeff_even": (k, k, 3), "Mass_coeff_odd": (k, k, 2), "J_coeff": (k, k, 2), "G_coeff": (k, k, 6),
             "L_coeff_even": (k, k, 2), "L_coeff_odd": (k, k, 3), "VV_coeff_even": (k, k, k, 3), "VV_coeff_odd": (k, k, k, 2)}
    return {n: I.tensor(n, s) for n, s in names.items()}


def mats(ctx):
    for M in range(0, 7 if not ctx.thorough else 11):
        I = ctx.interp()
        b, P = mkbuild(ctx, I, M=M, nq=2 * M + 1)
        d = {"build": b}
        d.update(tables(I, M))
        g = construct(ctx, I, "G_L", d)
        a, h = T.sym("a"), T.possym("h")
        ap, bp = T.sym("ap"), T.sym("bp")
        f = I.method(g, "make_all_matrices")
        run(ctx, I, f, a, a + h, ap, bp)
        L, G = I.getattr_obj(g, "L"), I.getattr_obj(g, "G")
        ctx.equal("L M=%d" % M, where(f), I.cells(L), sum(want_L(M, h), []))
        ctx.equal("G M=%d" % M, where(f), I.cells(G), sum(want_G(M, h, ap, bp), []))
        a2, h2 = T.sym("a2"), T.possym("h2")
        ap2, bp2 = T.sym("ap2"), T.sym("bp2")
        run(ctx, I, f, a2, a2 + h2, ap2, bp2)
        ctx.equal("L again M=%d" % M, where(f), I.cells(I.getattr_obj(g, "L")), sum(want_L(M, h2), []))
        ctx.equal("G again M=%d" % M, where(f), I.cells(I.getattr_obj(g, "G")), sum(want_G(M, h2, ap2, bp2), []))
    ctx.rule("slab: L_ij == int dB_i/dx B_j dx and G_ij == int dB_i/dt B_j dx on a cell whose ends move with (ap, bp); "
             "the same for a second cell assembled with the same object (no carry-over), for every order checked")


def check(ctx):
    ctx.section("slab matrices", mats)
