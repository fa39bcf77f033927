"""P18  opacity: the named profile, exact triple products, moments never stale."""
from checks.common import *
from checks.p07_projection import quad, moved

LEVEL = "other"
EXPLANATION = ("Value graphs of the opacity profiles at a symbolic point and time, of the triple-product table with a symbolic quadrature, of the moments after "
               "two updates with partly coinciding cell ends, and of the absorption vector for unrelated cells.")
X, TT = T.sym("x"), T.possym("t")


def make(ctx, name, n=2, M=1, Ms=1, **kw):
    I = ctx.interp()
    b, P = mkbuild(ctx, I, M=M, Msigma=Ms, N_space=n, sigma_func=opac(I, name), **kw)
    return I, P, construct(ctx, I, "sigma_integrator", {"build": b})


def form(name, P, x, t):
    if name == "constant":
        return T.ONE
    if name == "gaussian":
        return T.exp(-x * x / 8)
    if name == "siewert1":
        return T.exp(-x - T.const(Fr(5, 2)))
    if name == "siewert2":
        return T.exp(-x / 100000000000)
    # self-similar blast: a Gaussian tail behind the front, uniform ahead of it
    v = P["fake_sedov_v0"]
    s = x + v * t              # position relative to the front
    xi = T.ZERO - s - 1
    return T.ite(T.le(T.ZERO, s), T.exp(-xi * xi / 4), T.ZERO) + T.ite(T.le(s, T.ZERO), T.lift(0.2), T.ZERO)


def profiles(ctx):
    for name in ("constant", "gaussian", "siewert1", "siewert2", "fake_sedov"):
        I, P, s = make(ctx, name)
        f = I.method(s, "sigma_function")
        xs = [T.sym("x", T.const(k)) for k in range(2)]
        got = I.cells(run(ctx, I, f, I.arr_of(xs), TT))
        ctx.equal("profile " + name, where(f), got, [form(name, P, x, TT) for x in xs], boundary=False)
    ctx.rule("profiles: 1; exp(-x^2/8); exp(-x-5/2); exp(-x/1e11); blast wave: exp(-(s+1)^2/4) behind and 0.2 ahead of the front s = x + v t")


def parity(i, j, k):
    return (i + j + k) % 2 == 0 and j + k >= i and i + j >= k and i + k >= j


def triples(ctx):
    table(ctx, [(0, 0), (1, 1), (2, 2), (1, 3)] if not ctx.thorough else [(0, 0), (1, 1), (2, 2), (1, 3), (3, 3), (4, 2)])


def table(ctx, sizes):
    for M, Ms in sizes:
        I, P, s = make(ctx, "gaussian", M=M, Ms=Ms)
        A = I.cells(I.getattr_obj(s, "AAA"))
        f = I.func("sigma_integrator")
        xq, wq = list(I.cells(P["xs_quad"])), list(I.cells(P["ws_quad"]))
        ctx.require("table shape M=%d Ms=%d" % (M, Ms), A.shape == (M + 1, M + 1, Ms + 1), where(f), "table of shape %s" % (A.shape,))
        for i in range(M + 1):
            for j in range(M + 1):
                for k in range(Ms + 1):
                    q = T.ZERO
                    for x, w in zip(xq, wq):
                        q = q + w * legendre(i, x) * legendre(j, x) * legendre(k, x)
                    q = q * T.sqrt(T.const((2 * i + 1) * (2 * j + 1) * (2 * k + 1))) / 2
                    got = A[i, j, k]
                    if not parity(i, j, k) and got is T.ZERO:
                        ctx.require("triple %d%d%d" % (i, j, k), True, "", "")     # the integral vanishes identically
                    else:
                        ctx.equal("triple product [%d,%d,%d] M=%d Ms=%d" % (i, j, k, M, Ms), where(f), got, q)
    ctx.rule("triple products: sqrt((2i+1)(2j+1)(2k+1))/2 * sum w P_i P_j P_k, left out only where the integral vanishes identically")


def fresh(ctx):
    n = 3
    # which edges stay while the others move
    for name in ("gaussian", "fake_sedov"):
        for keep in range(2 ** (n + 1)):
            update(ctx, name, n, keep)
        update(ctx, name, n, 0, shift=T.possym("sh"))
    ctx.rule("moments after update(edges1, t1); update(edges2, t2) equal those of a fresh object updated once, for every subset of edges that coincide and for a mesh moved as a whole")


def large(ctx):
    """many cells, many directions, high order: the code distinguishes none of them"""
    n = beyond(ctx, 34, *RHS_CODE)
    table(ctx, [(6, 6), (2, 8)])
    for keep in (0, 2 ** (n + 1) - 1, sum(1 << k for k in range(0, n + 1, 2)), sum(1 << k for k in range(n + 1) if k % 3)):
        update(ctx, "gaussian", n, keep)
    vector(ctx, ((5, 5),), 2)
    vector(ctx, ((1, 1),), n)
    gain(ctx, ((5, 5),), 2, 2)
    gain(ctx, ((0, 1),), 2, 18)
    gain(ctx, ((1, 0),), n, 2)


def nz(E):
    return [T.not_(T.eq(e, T.ZERO)) for e in E]


def update(ctx, name, n, keep, shift=None):
    I, P, s = make(ctx, name, n=n, M=0, nq=1)
    f = I.method(s, "sigma_moments")
    E1 = [T.sym("e", T.const(k)) for k in range(n + 1)]
    E2 = [E1[k] if keep >> k & 1 else T.sym("g", T.const(k)) for k in range(n + 1)]
    if shift is not None:
        E2 = [e + shift for e in E1]
    t1, t2 = T.possym("t1"), T.possym("t2")
    store = I.arr_of(E1)
    run(ctx, I, f, store, t1)
    if keep % 3 == 0:
        # the mesh changes its edges in place
        for k in range(n + 1):
            I.setitem(store, T.const(k), E2[k])
        run(ctx, I, f, store, t2)
    else:
        run(ctx, I, f, I.arr_of(E2), t2)
    got = I.cells(I.getattr_obj(s, "cs"))
    J, Q, r = make(ctx, name, n=n, M=0, nq=1)
    run(ctx, J, J.method(r, "sigma_moments"), J.arr_of(E2), t2)
    want = J.cells(J.getattr_obj(r, "cs"))
    ctx.equal("moments after a second update %s cells=%d kept=%s%s" % (name, n, bin(keep), " shifted" if shift is not None else ""), where(f), got, want, facts=nz(E1) + nz(E2), boundary=False)


def absorption(ctx):
    vector(ctx, ((1, 1), (2, 1), (1, 3), (0, 2)), 2)


def vector(ctx, orders, n):
    for M, Ms in orders:
        for name in ("gaussian", "constant"):
            I, P, s = make(ctx, name, n=n, M=M, Ms=Ms)
            f = I.method(s, "make_vectors")
            E, hs = edges(I, n)
            cs = I.tensor("c", (n, Ms + 1))
            I.setattr_obj(s, "cs", cs)
            A = I.cells(I.getattr_obj(s, "AAA"))
            for step, space in enumerate((n - 1, n // 2 - 1, 0) if n > 2 else (1, 0)):
                u = I.vec("u%d" % step, M + 1)
                run(ctx, I, f, I.arr_of(E), u, space)
                uc, cc = list(I.cells(u)), I.cells(cs)
                want = []
                for i in range(M + 1):
                    v = T.ZERO
                    if name == "constant":
                        v = P["sigma_t"] * uc[i]
                    else:
                        for j in range(M + 1):
                            for k in range(Ms + 1):
                                v = v + P["sigma_t"] * cc[space, k] * uc[j] * A[i, j, k] / T.sqrt(hs[space])
                    want.append(v)
                ctx.equal("absorption %s M=%d Ms=%d cell %d of %d" % (name, M, Ms, space, n), where(f), I.cells(I.getattr_obj(s, "VV")), want)
    ctx.rule("absorption vector: total cross section * sum_jk c_k u_j A_ijk / sqrt(width) (sigma_t u for constant opacity), nothing left over")


def scattering(ctx):
    """scalar-flux term of unrelated cells on one object"""
    gain(ctx, ((1, 1), (2, 1), (1, 3), (0, 2)), 2, 3)


def gain(ctx, orders, n, L):
    for M, Ms in orders:
        for name in ("gaussian", "constant"):
            for g in ("slab",):
                I, P, s = make(ctx, name, n=n, M=M, Ms=Ms, N_ang=L)
                b, _ = mkbuild(ctx, I, M=M, Msigma=Ms, N_space=n, N_ang=L, sigma_func=opac(I, name), sigma_s=P["sigma_s"], ws=P["ws"], geometry=geom(I, g))
                ph = construct(ctx, I, "scalar_flux", {"build": b})
                run(ctx, I, I.method(ph, "load_AAA"), I.getattr_obj(s, "AAA"))
                cs = I.tensor("c", (n, Ms + 1))
                I.setattr_obj(s, "cs", cs)
                run(ctx, I, I.method(ph, "get_coeffs"), s)
                A, cc = I.cells(I.getattr_obj(s, "AAA")), I.cells(cs)
                E, hs = edges(I, n)
                ws = list(I.cells(I.getattr_obj(b, "ws")))
                f = I.method(ph, "make_P")
                for step, space in enumerate((n - 1, 0, n // 2)):
                    u = I.tensor("u%d" % step, (L, M + 1))
                    uc = I.cells(u)
                    run(ctx, I, f, u, space, E[space], E[space + 1])
                    want = []
                    for i in range(M + 1):
                        v = T.ZERO
                        for l in range(L):
                            if name == "constant":
                                v = v + P["sigma_s"] * ws[l] * uc[l, i]
                            else:
                                for j in range(M + 1):
                                    for k in range(Ms + 1):
                                        v = v + P["sigma_s"] * cc[space, k] * ws[l] * uc[l, j] * A[i, j, k] / T.sqrt(hs[space])
                        want.append(v)
                    ctx.equal("scattering %s M=%d Ms=%d cells=%d angles=%d step %d" % (name, M, Ms, n, L, step), where(f), I.cells(I.getattr_obj(ph, "scalar_flux_term")), want)
    ctx.rule("scattering vector: scattering cross section * sum_l w_l sum_jk c_k u_lj A_ijk / sqrt(width), cell after cell on one object")


def check(ctx):
    ctx.section("profiles", profiles)
    ctx.section("triples", triples)
    ctx.section("fresh", fresh)
    ctx.section("absorption", absorption)
    ctx.section("scattering", scattering)
    ctx.section("large sizes", large)
