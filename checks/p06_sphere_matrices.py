"""P06  spherical matrices assembled from the coefficient files."""
from checks.common import *
from checks.p05_slab_matrices import tables
from checks.p04_sphere_tables import bt
from sa.interp import const_str

LEVEL = "other"
EXPLANATION = ("The file reader and the assembler are analysed together on coefficient files whose data sets hold, symbolically, the exact "
               "coefficients in the documented layout with arbitrary denominators; every assembled entry is compared with the exact integral.")
ASSUMPTIONS = ["the coefficient files (not part of the repository) follow the layout the reader was written for, up to order 10 (names of entries are ambiguous beyond)"]
A, B = T.sym("a"), T.sym("b")


def r_():
    return (A + B) / 2 + Z * (B - A) / 2


def div_h(p):
    """p / (b - a) for a polynomial divisible by it (b = a + h)"""
    h = T.sym("hh")
    q = T.subst(p, {T.single_atom(B): A + h}) / h
    return T.subst(q, {T.single_atom(h): B - A})


def exact(i, j):
    """pi * (Mass, J, L*(b-a)) entries"""
    r = r_()
    mass = int_z(r ** 2 * bt(i) * bt(j)) / 2
    J = int_z(r * bt(i) * bt(j)) / 2
    L = int_z(r ** 2 * ddz(bt(i)) * bt(j))
    return mass, J, L


def coeffs(p, monos):
    """coefficients of p in the given monomials of (A, B)"""
    ia, ib = T.single_atom(A).id, T.single_atom(B).id
    out = []
    rest = p
    for ea, eb in monos:
        c = T.ZERO
        for m, k in p.key:
            d = dict(m)
            if d.pop(ia, 0) == ea and d.pop(ib, 0) == eb:
                c = c + T.p_scale(T._mono_norm(d), k)
        out.append(c)
        rest = rest - c * A ** ea * B ** eb
    assert rest is T.ZERO, T.show(rest)
    return out


Q3 = [(2, 0), (1, 1), (0, 2)]
Q2 = [(2, 0), (0, 2)]
Q1 = [(1, 0), (0, 1)]


def rtf(i, j):
    if (i == 0) == (j == 0):
        return T.ONE
    k = max(i, j)
    return SQ2 if k % 2 == 0 else 1 / SQ2


def files(I, K):
    # orders 0 and 10 share one entry name with 10 and 0: these matrices are symmetric, so one entry serves both
    assert K <= 11
    def den(nm, *ix):
        if nm in ("denMass", "denJ"):
            ix = sorted(ix)
        return T.possym(nm, *[T.const(k) for k in ix])
    trees = {k: {} for k in ("Mass", "J", "G", "L", "VV")}
    for nm in ("Mass", "J", "G", "L"):
        trees[nm]["denominators"] = I.arr_of([[den("den" + nm, i, j) for j in range(K)] for i in range(K)])
    trees["VV"]["denominators"] = I.arr_of([[[den("denVV", n, i, j) for j in range(K)] for i in range(K)] for n in range(2)])
    for i in range(K):
        for j in range(K):
            el = "coefficients/Element%d%d" % (i + 1, j + 1)
            mass, J, L = exact(i, j)
            ev = (i + j) % 2 == 0
            put = lambda nm, cs, f: trees[nm].__setitem__(el, I.arr_of([[c * f * den("den" + nm, i, j) for c in cs]]))
            put("Mass", coeffs(mass, Q3 if ev else Q2), 1 / rtf(i, j))
            put("J", coeffs(J, Q1), SQ2 if (i == 0) != (j == 0) else T.ONE)
            if i > 0:
                s = T.ONE if j else 1 / SQ2
                if ev:
                    put("L", coeffs(div_h(L), Q1), s)
                else:
                    put("L", coeffs(T.ZERO - L, Q3), s)
            put("G", [T.sym("gc", T.const(i), T.const(j), T.const(k)) for k in range(6)], T.ONE)
    return trees


def h5ext(I, trees, opened):
    def open_(I, a, kw):
        p = const_str(a[0]) or ""
        base = p.split("/")[-1]
        for nm in ("Mass", "VV", "J", "G", "L"):
            if base.startswith(nm):
                opened.append(nm)
                return h5node(I, trees[nm])
        raise Undecided("file %r" % (p,))
    I.ext["h5py.File"] = open_


def read(ctx, I, K):
    opened = []
    h5ext(I, files(I, K), opened)
    c = I.func("file_reader")
    stopped = None
    try:
        rd = run(ctx, I, c)
    except Undecided as e:
        stopped = e
    if getattr(I, "missing", None):
        raise Definite("the reader asks for %s, which the file layout does not have" % I.missing[0], where(c))
    if stopped is not None and not I.raises:
        raise stopped
    if I.raises:
        raise Definite("the reader stops: %s" % (I.raises[0][1],), "%s" % loc(I.raises[0][2]))
    return I.iterate(run(ctx, I, rd)), opened


def want(M):
    r = {"Mass": [], "J": [], "L": []}
    h = B - A
    for i in range(M + 1):
        for j in range(M + 1):
            m, J, L = exact(i, j)
            r["Mass"].append(m / PI)
            r["J"].append(J / PI)
            r["L"].append(L / (PI * h))
    return r


def assemble(ctx):
    cases = [(0, 4), (1, 4), (2, 4), (3, 4), (3, 6), (5, 6), (7, 8), (9, 11), (10, 11)] if not ctx.thorough else [(0, 4), (1, 4), (3, 4), (3, 6), (5, 6), (7, 8), (8, 10), (9, 10), (9, 11), (10, 11)]
    for M, K in cases:
        I = ctx.interp([T.lt(A, B)])
        give, opened = read(ctx, I, K)
        b, P = mkbuild(ctx, I, M=M, nq=3, geometry=geom(I, "sphere"))
        c = I.func("G_L")
        g = run(ctx, I, c, b, *give)
        f = I.method(g, "make_all_matrices")
        ap, bp = T.sym("ap"), T.sym("bp")
        a2, h2 = T.sym("a2"), T.possym("h2")
        run(ctx, I, f, a2, a2 + h2, bp, ap)      # an earlier cell
        run(ctx, I, f, A, B, ap, bp)
        w = want(M)
        for nm in ("Mass", "J", "L"):
            got = I.cells(I.getattr_obj(g, nm)).reshape(-1)
            h = B - A
            ctx.equal("%s M=%d K=%d" % (nm, M, K), where(f), [norm(x) for x in got], [norm(x) for x in w[nm]])
        # tables: entry (i,j) over pi, in the right slots
        I2 = I
        for nm, fn in (("G", "GMatrix"), ("MPRIME", "MPRIME")):
            got = I.cells(I.getattr_obj(g, nm)).reshape(-1)
            ref = [I.run(I.func(fn), i, j, A, B, ap, bp) / PI for i in range(M + 1) for j in range(M + 1)]
            ctx.equal("%s M=%d K=%d" % (nm, M, K), where(f), got, ref)
        ctx.require("files M=%d K=%d" % (M, K), set(opened) >= {"Mass", "J", "L"}, where(f), "coefficient files %s not read" % sorted({"Mass", "J", "L"} - set(opened)))
    ctx.rule("reader + assembler: Mass == int r^2 B_i B_j, J == int r B_i B_j, L == int r^2 B_i' B_j, G and MPRIME from the closed forms over pi; "
             "arbitrary denominators, file size equal to or larger than the expansion; values of an earlier cell do not survive")


def norm(p):
    """clear 1/(b-a) by substituting b = a + h"""
    h = T.possym("hn")
    return T.subst(p, {T.single_atom(B): A + h})


def check(ctx):
    ctx.section("sphere matrices", assemble)
