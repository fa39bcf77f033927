"""P01  Chebyshev basis polynomials."""
from checks.common import *
from fractions import Fraction as Fr

LEVEL = "other"
EXPLANATION = ("Gated value graph of the Chebyshev evaluator at every integer degree; each leaf polynomial is compared, "
               "coefficient by coefficient, with the three-term recurrence; the refusal above the supported degree is "
               "decided on the exits of the same graph.")


def table(ctx):
    x = T.sym("x")
    top = 12
    for n in range(0, top + 1):
        I = ctx.interp()
        f = I.func("eval_Tn")
        v = run(ctx, I, f, n, x)
        ctx.equal("T%d" % n, where(f), v, cheb(n, x))
    ctx.rule("leaf polynomial of eval at degree n == T_n from T_{n+1} = 2 x T_n - T_{n-1}, n = 0..%d" % top)
    for n in list(range(top + 1, top + 14)) + [40, 100]:
        I = ctx.interp()
        f = I.func("eval_Tn")
        try:
            v = I.run(f, n, x)
            good = v is not T.NONE and isinstance(v, T.V)
            if good:
                ctx.equal("T%d" % n, where(f), v, cheb(n, x))
            else:
                ctx.require("refuse%d" % n, False, where(f), "degree %d is neither refused nor evaluated (returns %r)" % (n, v))
        except Raised:
            ctx.require("refuse%d" % n, True, where(f), "")
    ctx.rule("degrees above the table: every path raises, or the value is exactly T_n")


def basis(ctx):
    a, h = T.sym("a"), T.possym("h")
    for n in range(0, 13):
        I = ctx.interp()
        x = I.vec("x", 3)
        f = I.func("normTn")
        v = run(ctx, I, f, n, x, a, a + h)
        want = [Bcheb(n, (2 * c - 2 * a - h) / h, h) for c in I.cells(x)]
        ctx.equal("B%d" % n, where(f), I.cells(v), want)
        ctx.require("B%d input kept" % n, list(I.cells(x)) == [T.sym("x", T.const(k)) for k in range(3)], where(f), "the evaluation points are overwritten")
    ctx.rule("normTn(n, x, a, b) == c_n T_n((2x-a-b)/(b-a)) / sqrt(pi (b-a)), c_0 = 1, c_n = sqrt 2, every component")
    I = ctx.interp([T.lt(T.sym("a"), T.sym("x", T.ZERO)), T.lt(T.sym("x", T.ZERO), a + h)])
    f = I.func("weight_func_Tn")
    x = I.vec("x", 1)
    v = I.cells(run(ctx, I, f, x, a, a + h))[0]
    # w^2 * (x-a)(b-x) = (b-a)^2
    x0 = T.sym("x", T.ZERO)
    ctx.equal("weight", where(f), v * v * (x0 - a) * (a + h - x0), h * h)
    ctx.rule("weight^2 (x-a)(b-x) == (b-a)^2: the basis is orthonormal for that weight")


def check(ctx):
    ctx.section("table", table)
    ctx.section("basis", basis)
