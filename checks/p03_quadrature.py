"""P03  quadrature rules."""
from checks.common import *
from sa.interp import Builtin, Ext

LEVEL = "other"
EXPLANATION = ("Value graphs of the rule builder for each rule name and order (root finder kept uninterpreted), of the derivative "
               "formulas it iterates on, and of one Newton step.")
ORDERS = (1, 2, 3, 4, 5, 8, 13, 34)


def check(ctx):
    ctx.section("chebyshev", chebyshev)
    ctx.section("legendre", leg)
    ctx.section("lobatto", lobatto)
    ctx.section("derivatives", derivs)
    ctx.section("newton", newton)


def chebyshev(ctx):
    for n in ORDERS:
        I = ctx.interp()
        f = I.func("quadrature")
        xs, ws = run(ctx, I, f, n, "chebyshev")
        got = list(I.cells(xs))
        want = [T.func("cos", T.const(Fr(2 * i - 1, 2 * n)) * PI) for i in range(1, n + 1)]
        neg = [T.neg(T.func("cos", T.const(Fr(2 * i - 1, 2 * n)) * PI)) for i in range(1, n + 1)]
        ctx.equal("chebyshev nodes n=%d" % n, where(f), canon(got), canon(want))
        ctx.equal("chebyshev weights n=%d" % n, where(f), list(I.cells(ws)), [PI / n] * n)
    ctx.rule("chebyshev rule: nodes cos((2i-1)pi/2n) (as a set), weights pi/n, orders %s" % (ORDERS,))


def canon(vs):
    """cos(q pi) with rational q -> cos(q' pi), q' in [0,1]; as a sorted set"""
    out = []
    for v in vs:
        try:
            s = T.ONE
            p = v
            (m, c), = p.key
            (i, e), = m
            at = T.A(i)
            if at.op == "app" and at.args[0] == "cos" and e == 1:
                q = at.args[1] / PI
                if T.is_const(q):
                    q = abs(T.const_val(q)) % 2
                    if q > 1:
                        q = 2 - q
                    if c == -1:
                        q = 1 - q
                        c = 1
                    if q > Fr(1, 2):
                        q, c = 1 - q, -c
                    v = T.p_scale(T.func("cos", T.const(q) * PI), c) if q != Fr(1, 2) else T.ZERO
        except ValueError:
            pass
        out.append(v)
    return sorted(out, key=T.show)


def leg(ctx):
    for n in ORDERS:
        I = ctx.interp()
        f = I.func("quadrature")
        xs, ws = run(ctx, I, f, n, "gauss_legendre")
        from sa.npmodel import leggauss
        X, W = leggauss(I, [T.const(n)], {})
        ctx.equal("legendre nodes n=%d" % n, where(f), list(I.cells(xs)), list(I.cells(X)))
        ctx.equal("legendre weights n=%d" % n, where(f), list(I.cells(ws)), list(I.cells(W)))
    ctx.rule("gauss_legendre rule: numpy leggauss(n), nodes and weights in that order")


def root_override(rec):
    def f(I, a, kw):
        k = len(rec)
        rec.append(a)
        v = T.sym("root", T.const(k))
        return v
    return Builtin("rootfinder", f)


def lobatto(ctx):
    for n in (2, 3, 4, 5, 6, 8, 9, 13):
        rec = []
        I = ctx.interp(overrides={"newtons": root_override(rec), "newtons2": root_override(rec), "bisection": root_override(rec)})
        f = I.func("quadrature")
        xs, ws = run(ctx, I, f, n, "gauss_lobatto")
        xs, ws = list(I.cells(xs)), list(I.cells(ws))
        ctx.equal("lobatto ends n=%d" % n, where(f), [xs[0], xs[-1]], [T.const(-1), T.ONE])
        ctx.equal("lobatto end weights n=%d" % n, where(f), [ws[0], ws[-1]], [T.const(Fr(2, n * (n - 1)))] * 2)
        inner = xs[1:-1]
        ctx.require("lobatto distinct roots n=%d" % n, len(set(inner)) == n - 2, where(f), "inner nodes are not one root per bracket")
        ctx.equal("lobatto inner weights n=%d" % n, where(f), ws[1:-1],
                  [T.const(Fr(2, n * (n - 1))) / (T.legendre(T.const(n - 1), x) ** 2) for x in inner])
        ctx.require("lobatto root count n=%d" % n, len(rec) == n - 2, where(f), "%d roots searched" % len(rec))
        from sa.npmodel import leggauss
        X, _ = leggauss(I, [T.const(n - 1)], {})
        br = list(I.cells(X))
        for k, a in enumerate(rec):
            # start strictly inside the k-th bracket, functions P'_{n-1}, P''_{n-1}
            if isinstance(a[0], T.V) and len(a) >= 3:
                ctx.equal("lobatto start n=%d k=%d" % (n, k), where(f), a[0], (br[k] + br[k + 1]) / 2)
                x = T.sym("xx")
                for which, g in ((1, a[1]), (2, a[2])):
                    got = I.call(g, [x], {})
                    want = legendre(n - 1, x)
                    for _ in range(which):
                        want = T.diff(want, T.single_atom(x))
                    ctx.equal("lobatto fn n=%d k=%d order %d" % (n, k, which), where(f), got, want)
    # two cells ask for the degenerate rule of one node
    I = ctx.interp()
    f = I.func("quadrature")
    got = None
    try:
        xs, ws = run(ctx, I, f, 1, "gauss_lobatto")
        got = (len(list(I.cells(xs))), len(list(I.cells(ws))))
    except (Definite, Undecided) as e:
        got = str(e)
    ctx.require("lobatto n=1", got == (1, 1) and not I.raises, where(f), "the one-node rule a run with two cells asks for: %s %s" % (got, [k for _, k, _ in I.raises]))
    ctx.rule("gauss_lobatto rule: ends +-1, weights 2/(n(n-1)) at the ends and 2/(n(n-1)P_{n-1}(x)^2) inside, inner nodes = "
             "roots of P'_{n-1} started inside each bracket; n = 2..13; the one-node rule exists")


def derivs(ctx):
    x = T.sym("xx")
    for n in range(1, 15):
        I = ctx.interp()
        f = I.func("eval_legendre_deriv")
        ctx.equal("P' n=%d" % n, where(f), run(ctx, I, f, n, x), T.diff(legendre(n, x), T.single_atom(x)))
        if n >= 2:
            f = I.func("eval_second_legendre_deriv")
            ctx.equal("P'' n=%d" % n, where(f), run(ctx, I, f, n, x),
                      T.diff(T.diff(legendre(n, x), T.single_atom(x)), T.single_atom(x)))
    ctx.rule("the two derivative formulas equal d/dx P_n and d2/dx2 P_n as rational functions, n = 1..14")


def newton(ctx):
    """the update map of the root finder is x - f(x)/f'(x) and it stops only when the step is within tol"""
    I = ctx.interp()
    I.truncate_while = 2
    f = I.func("newtons")
    F = Builtin("f", lambda I, a, kw: T.func("ff", a[0]))
    G = Builtin("g", lambda I, a, kw: T.func("gg", a[0]))
    x0, tol = T.sym("xs"), T.possym("tol")
    want1 = x0 - T.func("ff", x0) / T.func("gg", x0)
    want2 = want1 - T.func("ff", want1) / T.func("gg", want1)
    d1 = T.le(T.abs_(want1 - x0), tol)
    d2 = T.le(T.abs_(want2 - want1), tol)
    v = I.run(f, x0, F, G, tol)
    ctx.analysed |= I.analysed
    want = T.ite(d1, want1, want2)
    # value after <= 2 iterations on the exits of the loop
    got = T.ite(T.or_(d1, d2), v, T.ZERO)
    wnt = T.ite(T.or_(d1, d2), want, T.ZERO)
    ctx.equal("newton step", where(f), got, wnt)
    ctx.rule("Newton iteration: exits of the first two rounds return x - f/f' of the previous iterate, taken only when |step| <= tol")
