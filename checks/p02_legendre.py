"""P02  normalised Legendre basis and its derivative."""
from checks.common import *

LEVEL = "other"
EXPLANATION = ("Gated value graphs of the Legendre basis evaluators (vector, scalar, un-normalised) and of the basis derivative "
               "at every degree, compared with the recurrence-defined polynomials and with the symbolic derivative of the "
               "evaluator's own graph.")


def zed(x, a, h):
    return (2 * x - 2 * a - h) / h


def values(ctx):
    a, h = T.sym("a"), T.possym("h")
    for n in range(0, 13):
        I = ctx.interp()
        x = I.vec("x", 3)
        xs = I.cells(x)
        f = I.func("normPn")
        ctx.equal("normPn%d" % n, where(f), I.cells(run(ctx, I, f, n, x, a, a + h)), [Bleg(n, zed(c, a, h), h) for c in xs])
        f = I.func("Pn")
        ctx.equal("Pn%d" % n, where(f), I.cells(run(ctx, I, f, n, x, a, a + h)), [legendre(n, c) for c in xs])
        f = I.func("normPn_scalar")
        ctx.equal("normPn_scalar%d" % n, where(f), run(ctx, I, f, n, xs[0], a, a + h), Bleg(n, zed(xs[0], a, h), h))
        f = I.func("Pn_scalar")
        ctx.equal("Pn_scalar%d" % n, where(f), run(ctx, I, f, n, xs[0], a, a + h), legendre(n, xs[0]))
        ctx.require("args%d" % n, list(I.cells(x)) == list(xs), where(f), "evaluation points overwritten")
    # every degree at once (symbolic degree)
    I = ctx.interp()
    N = T.isym("n")
    x = I.vec("x", 1)
    f = I.func("normPn")
    ctx.equal("normPn any n", where(f), I.cells(run(ctx, I, f, N, x, a, a + h)),
              [T.sqrt((2 * N + 1) / h) * T.legendre(N, zed(I.cells(x)[0], a, h))])
    ctx.rule("normPn(n,x,a,b) == sqrt((2n+1)/(b-a)) P_n((2x-a-b)/(b-a)); Pn == P_n; scalar variants agree; n = 0..12 and symbolic n")


def deriv(ctx):
    a, h = T.sym("a"), T.possym("h")
    f = None
    for n in range(0, 12):
        I = ctx.interp()
        x = I.vec("x", 2)
        f = I.func("dx_normPn")
        got = I.cells(run(ctx, I, f, n, x, a, a + h))
        want = []
        for c in I.cells(x):
            at = T.single_atom(c)
            want.append(T.diff(Bleg(n, zed(c, a, h), h), at))
        ctx.equal("dB%d" % n, where(f), got, want)
    ctx.rule("dx_normPn(n,x,a,b) == d/dx normPn(n,x,a,b) for n = 0..11")


def check(ctx):
    ctx.section("values", values)
    ctx.section("derivative", deriv)
