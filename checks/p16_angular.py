"""P16  angular redistribution on unevenly spaced ordinates conserves particles."""
from checks.common import *
from checks.p15_sphere_rhs import angular

LEVEL = "other"
EXPLANATION = ("Value graph of the angular difference for symbolic, unevenly spaced ordinates and angular fluxes, at every ordinate; the spacing-weighted "
               "sum is compared with zero.")


def redistribution(ctx):
    """the angular difference conserves particles"""
    I = ctx.interp()
    f = I.func("finite_diff_uneven")
    for n in (3, 4, 6, 18) if not ctx.thorough else (2, 3, 4, 5, 6, 8, 12, 18, 24):
        mu = [T.sym("mu", T.const(k)) for k in range(n)]
        u = [T.sym("psi", T.const(k)) for k in range(n)]
        tot = T.ZERO
        for k in range(n):
            r = run(ctx, I, f, I.arr_of(mu), k, I.arr_of(u), left=(k == 0), right=(k == n - 1))
            lo = T.const(-1) if k == 0 else (mu[k - 1] + mu[k]) / 2
            hi = T.ONE if k == n - 1 else (mu[k] + mu[k + 1]) / 2
            tot = tot + r * (hi - lo)
            ctx.equal("angular difference n=%d k=%d" % (n, k), where(f), r, angular(mu, u, k))
        ctx.equal("angular conservation n=%d" % n, where(f), tot, T.ZERO)
    ctx.rule("angular difference: sum over the ordinates of (mid-point spacing x difference) == 0 identically")


def linear(ctx):
    """exact on a constant flux between interior mid points: d(1-mu^2)/dmu averaged"""
    I = ctx.interp()
    f = I.func("finite_diff_uneven")
    mu = [T.sym("mu", T.const(k)) for k in range(3)]
    c = T.sym("c")
    r = run(ctx, I, f, I.arr_of(mu), 1, I.arr_of([c] * 3))
    ctx.equal("constant flux", where(f), r, T.ZERO - c * (mu[0] + 2 * mu[1] + mu[2]) / 2)


def check(ctx):
    ctx.section("redistribution", redistribution)
    ctx.section("constant flux", linear)
