"""P04  closed-form moving-mesh integrals of the spherical basis."""
from checks.common import *

LEVEL = "other"
EXPLANATION = ("Value graphs of the two tabulated integrals at every index pair; each entry is a rational function of the cell "
               "ends and their velocities and is compared, monomial by monomial, with the integral computed exactly from the basis.")
TOP = 10


def frame():
    a, h = T.sym("a"), T.possym("h")
    b = a + h
    ap, bp = T.sym("ap"), T.sym("bp")
    r = a + h * (Z + 1) / 2
    return a, b, h, ap, bp, r


def bt(n):
    """B_n without the 1/sqrt(pi h)"""
    return (T.ONE if n == 0 else SQ2) * cheb(n)


def dt_ratio(n, h, ap, bp):
    """d/dt B_n at fixed r, divided by 1/sqrt(pi h)"""
    hp = bp - ap
    zt = T.ZERO - (ap + bp) / h - Z * hp / h
    return ddz(bt(n)) * zt - bt(n) * hp / (2 * h)


def gmatrix(ctx):
    a, b, h, ap, bp, r = frame()
    for i in range(TOP + 1):
        for j in range(TOP + 1):
            I = ctx.interp()
            f = I.func("GMatrix")
            v = run(ctx, I, f, i, j, a, b, ap, bp)
            # pi * int r^2 dB_i/dt B_j dr, dr = h/2 dz, B B = 1/(pi h)
            want = int_z(r ** 2 * dt_ratio(i, h, ap, bp) * bt(j)) / 2
            ctx.equal("G[%d,%d]" % (i, j), where(f), v, want)
    ctx.rule("GMatrix(i,j) == pi * int_a^b r^2 (dB_i/dt) B_j dr, i, j = 0..%d" % TOP)


def mprime(ctx):
    a, b, h, ap, bp, r = frame()
    A, H = T.single_atom(a), T.single_atom(h)
    for i in range(TOP + 1):
        for j in range(TOP + 1):
            I = ctx.interp()
            f = I.func("MPRIME")
            v = run(ctx, I, f, i, j, a, b, ap, bp)
            m = int_z(r ** 2 * bt(i) * bt(j)) / 2
            want = T.diff(m, A) * ap + T.diff(m, H) * (bp - ap)
            ctx.equal("M'[%d,%d]" % (i, j), where(f), v, want)
    ctx.rule("MPRIME(i,j) == d/dt (pi int_a^b r^2 B_i B_j dr), i, j = 0..%d" % TOP)


def beyond(ctx):
    """indices outside the tables must not be evaluated to some number"""
    a, b, h, ap, bp, r = frame()
    for nm in ("GMatrix", "MPRIME"):
        for i, j in ((11, 0), (0, 11), (11, 11)):
            I = ctx.interp()
            f = I.func(nm)
            try:
                v = I.run(f, i, j, a, b, ap, bp)
                ctx.analysed |= I.analysed
            except Raised:
                continue
            if isinstance(v, T.V) and v is not T.NONE:
                if nm == "GMatrix":
                    want = int_z(r ** 2 * dt_ratio(i, h, ap, bp) * bt(j)) / 2
                else:
                    m = int_z(r ** 2 * bt(i) * bt(j)) / 2
                    want = T.diff(m, T.single_atom(a)) * ap + T.diff(m, T.single_atom(h)) * (bp - ap)
                ctx.equal("%s[%d,%d] beyond" % (nm, i, j), where(f), v, want)
    ctx.rule("outside the table an entry is absent or exact")


def check(ctx):
    ctx.section("GMatrix", gmatrix)
    ctx.section("MPRIME", mprime)
    ctx.section("beyond", beyond)
