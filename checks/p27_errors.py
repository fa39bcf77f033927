"""P27  reported errors: distance to the benchmark of this problem, and the order they imply."""
from checks.e2e import *
from checks.h5store import Store, norm, show
from sa.interp import const_str
from sa import npmodel

LEVEL = "other"
EXPLANATION = ("Value graph of whole runs with benchmarking on, the benchmark being an uninterpreted function of position, and of the benchmark loader over a data file that "
               "answers every path with symbols of that path: which benchmark is selected, where it is evaluated, which norm is taken, which order results.")
ORDER = ["plane_IC", "square_IC", "square_source", "gaussian_IC", "MMS", "gaussian_source", "gaussian_IC_2D", "line_source", "P1_su_olson_rad", "P1_su_olson_mat",
         "P1_gaussian_rad", "P1_gaussian_mat", "P1_gaussian_rad_thick", "P1_gaussian_mat_thick", "P1_su_olson_rad_thick", "P1_su_olson_mat_thick"]


def bench_override(I, log):
    def load(I, a, kw):
        names = ["source_type", "tfinal", "x0_or_sigma", "c", "c_scaling"]
        d = dict(zip(names, a))
        d.update(kw)
        n = len(log)
        log.append([T.const_val(x) for x in cells(I, d["source_type"])] + [I.scalar(d["tfinal"])])
        which = [int(x) for x in log[-1][:-1]].index(1)

        def call(I, a, kw):
            xs = a[0]
            f = lambda nm: I.arr_of([T.app(nm, T.const(which), x) for x in I.cells(xs).reshape(-1)])
            return (f("bench"), f("bench_u"), T.ZERO)
        return Builtin("benchmark", call)
    I.overrides["load_bench"] = Builtin("load_bench", load)


def solver_of(r):
    o = [x for x in r.I.created if x.cls is not None and x.cls.name == "main_class"]
    return o[-1]


NUMBERS = dict(tfinal=T.const(1), t0=T.const(Fr(1, 2)), sigma_t=T.const(1), sigma_s=T.const(Fr(1, 2)), l=T.const(1), sigma=T.const(Fr(1, 2)), xs_list=[T.const(Fr(-1, 3)), T.const(Fr(1, 5))])


def plain_quadrature(I, numbers=False):
    """evenly spaced points, symbolic weights (or numbers)"""
    def q(I, a, kw):
        n = int(T.const_val(I.scalar(a[0])))
        nm = const_str(I.scalar(a[1]))
        return (I.arr_of([T.const(Fr(2 * k - n + 1, max(n - 1, 1))) for k in range(n)]), I.arr_of([T.const(Fr(1, 1 + k)) if numbers else T.possym("w_%s" % nm, T.const(n), T.const(k)) for k in range(n)]))
    I.overrides["quadrature"] = Builtin("quadrature", q)

    def leg(I, a, kw):
        n = int(T.const_val(I.scalar(a[0])))
        return (I.arr_of([T.const(Fr(2 * k - n + 1, n)) for k in range(n)]), I.arr_of([T.possym("leg_w", T.const(n), T.const(k)) for k in range(n)]))
    for nm in ("numpy.polynomial.legendre.leggauss", "scipy.special.roots_legendre"):
        I.ext[nm] = leg


SCEN = (("plane pulse", "plane_IC", {}, 0, 1), ("square pulse", "square_IC", {}, 0, 1), ("gaussian pulse", "gaussian_IC", {}, 0, 0),
                                         ("two sizes", "plane_IC", dict(sizes=((4, 2, 0), (2, 4, 1))), 0, 1),
                                         ("three sizes", "plane_IC", dict(sizes=((2, 2, 1), (4, 2, 1), (8, 2, 1)), major="cells"), 0, 1),
                                         ("three orders", "square_IC", dict(sizes=((4, 2, 0), (4, 2, 1), (4, 2, 2)), major="Ms"), 0, 1),
                                         ("scaled by c", "plane_IC", dict(c_scaling=True), 0, 1), ("square source", "square_source", {}, 0, 1),
                                         ("numbers", "square_IC", dict(sizes=((4, 2, 1),)), 0, 1), ("chosen points", "plane_IC", dict(choose_xs=True), 0, 1))


def errors(ctx, scen):
    """every length and time a number (only the computed solution is symbolic): the norm's form does not depend on them"""
    half = [T.const(Fr(1, 2))] * 3
    for title, entry, over, unc, mov in scen:
        over = dict(NUMBERS, **over)
        over["x0"] = half[:len(over.get("sizes", (1,)))]
        r = Run(ctx, entry, unc, mov, benchmarking=True, **over)
        log = []
        bench_override(r.I, log)
        nums = title == "numbers"
        plain_quadrature(r.I, nums)
        if nums:
            # a computed flux with negative, zero and positive values
            r.value = lambda n, i, j: T.const(Fr((i * 7) % 11 - 5 if i % 8 > 1 else 0, 3))
        orders = []

        def order_of(I, a, kw):
            v = [I.scalar(x) for x in list(a) + list(kw.values())]
            orders.append(v)
            return T.app("order", *v)
        r.I.overrides["convergence"] = Builtin("convergence", order_of)
        spaced = npmodel.linspace
        r.I.ext["numpy.linspace"] = lambda I, a, kw: spaced(I, list(a[:2]) + [T.const(3)] if len(a) > 2 and T.const_val(I.scalar(a[2])) > 500 else a, kw)
        r.go()
        I, wh = r.I, where(r.f)
        if not ctx.require("%s: finishes" % title, r.raised is None and not I.raises, wh, "%s: with benchmarking on the run stops: %s %s" % (title, r.raised, [(k, loc(n)) for _, k, n in I.raises])):
            continue
        src, al = r.cfg[entry], r.cfg["all"]
        want_sel = [int(k == ENTRIES[entry]) for k in range(6)]
        ctx.require("%s: a benchmark is loaded" % title, len(log) > 0, wh, "%s: no benchmark is loaded" % title)
        for lg in log:
            ctx.require("%s: benchmark of this source" % title, [int(x) for x in lg[:-1]] == want_sel and lg[-1] is al["tfinal"], wh,
                        "%s: benchmark selected for source %s at time %s" % (title, lg[:-1], lg[-1]))
        so = solver_of(r)
        got = cells(I, I.getattr_obj(so, "RMS_list"))
        n = len(src["N_angles"])
        ctx.require("%s: one error per size" % title, len(got) == n, wh, "%d errors for %d sizes" % (len(got), n))
        for k in range(n):
            # the same size alone gives the same field
            if n > 1:
                q = Run(ctx, entry, unc, mov, **dict(over, sizes=(over["sizes"][k],), x0=half[:1], major="cells"))
                q.base = -k
                plain_quadrature(q.I)
                q.go()
            else:
                q = r
            xs, phi = cells(q.I, q.out("xs")), cells(q.I, q.out("phi"))
            c = al["sigma_s"] / al["sigma_t"]
            s = T.ZERO
            for x, p in zip(xs, phi):
                if over.get("c_scaling"):
                    b = c * T.exp(T.ZERO - (1 - c) * al["tfinal"]) * T.app("bench", T.const(ENTRIES[entry]), T.abs_(x * c))
                else:
                    b = T.app("bench", T.const(ENTRIES[entry]), T.abs_(x))
                s = s + (p - b) ** 2
            ctx.equal("%s: error of size %d" % (title, k), wh, [got[k]], [T.sqrt(s / len(xs))], boundary=False)
        if orders and over.get("major", "cells") == "cells" and all(len(o) == 4 for o in orders):
            size = [T.const(z[0]) for z in over["sizes"]]
            ctx.require("%s: one order per refinement" % title, len(orders) == n - 1, wh, "%d orders are reported for %d sizes" % (len(orders), n))
            for k, o in enumerate(orders[:n - 1]):
                ctx.equal("%s: order reported for size %d" % (title, k + 1), wh, o, [got[k], size[k], got[k + 1], size[k + 1]], boundary=False)
    ctx.rule("error of size k == root mean square over the reported points of (flux - benchmark at |x|), the benchmark being that of this source and time (scaled when asked); the order reported with it compares neighbouring sizes")


def order(ctx):
    I = ctx.interp()
    f = I.func("convergence")
    e1, e2, x1, x2 = [T.possym(s) for s in ("err1", "err2", "n1", "n2")]
    got = run(ctx, I, f, e1, x1, e2, x2)
    ctx.equal("order", where(f), [got], [(T.log(e1) - T.log(e2)) / (T.log(x2) - T.log(x1))], boundary=False)
    # errors C n^-p give back p
    C, = [T.possym("C")]
    for p in (1, 2, 5):
        got = run(ctx, I, f, C / x1 ** p, x1, C / x2 ** p, x2)
        ctx.equal("order %d" % p, where(f), [got], [T.const(p)], boundary=False)
    ctx.rule("convergence order of errors proportional to n^-p is p, and the general formula")


def selection(ctx):
    """benchmark loader: data set of the named source and time"""
    for k, nm in enumerate(ORDER):
        for length in ((6, 16) if k < 6 else (16,)):
            for c_scaling, t in ((0, T.const(5)), (1, T.const(5)), (0, T.const(Fr("0.83334"))), (1, T.const(Fr("0.83334"))), (1, T.const(Fr("31.6228"))), (0, T.const(Fr("0.000125")))):
                I = ctx.interp()
                asked = []

                def node(I, path):
                    def get(I, a, kw):
                        p = norm(path, a[0])
                        if len(p) < 2:
                            return node(I, p)
                        asked.append(p)
                        rows = onp.empty((3, 4), dtype=object)
                        for ix in onp.ndindex(3, 4):
                            rows[ix] = T.const(ix[1]) if ix[0] == 0 else T.sym("row%d" % ix[0], T.const(ix[1]))
                        return I.arr_of(rows)
                    return I.new_obj({"__getitem__": Builtin("get", get), "close": Builtin("close", lambda I, a, kw: None)})
                I.ext["h5py.File"] = lambda I, a, kw: node(I, ())
                I.ext["numpy.loadtxt"] = lambda I, a, kw: T.sym("table")
                interp1d(I)
                cl = I.func("load_bench")
                share = Fr(1, 2) if T.const_val(t) == 5 else Fr("0.9")
                c = T.const(share) if c_scaling else T.possym("c")
                o = run(ctx, I, cl, source_type=I.arr_of([T.lift(int(q == k)) for q in range(length)]), tfinal=t, x0_or_sigma=T.sym("x0"), c=c, c_scaling=I.to_val(c_scaling))
                title = "benchmark %s (%d slots), time %s%s" % (nm, length, float(T.const_val(t)), ", scaled" if c_scaling else "")
                ok = len(asked) == 1
                tm = None
                if ok:
                    src, ts = show(asked[0][:1]), show(asked[0][1:])
                    try:
                        tm = Fr(ts.split("=")[1].strip())
                    except (ValueError, IndexError):
                        pass
                    ok = src == nm and tm == (share if c_scaling else 1) * T.const_val(t)
                ctx.require(title, ok, where(cl), "%s: data sets asked for: %s" % (title, [show(p) for p in asked]))
                # inside the domain of the benchmark
                xs = [T.const(0), T.const(1)]
                out = evaluate(ctx, I, o, xs, 2)
                if out is not None:
                    for q, row in ((0, "row1"), (1, "row2")):
                        ctx.equal("%s: %s" % (title, ("flux", "uncollided flux")[q]), where(cl), out[q], [T.app("interp", T.lift(row), x) for x in xs], boundary=False)
    ctx.rule("benchmark of source k at time t reads the data set of that name and time and interpolates its flux rows")


def interp1d(I):
    def make(I, a, kw):
        name = I.cells(a[1]).reshape(-1)[0]
        nm = T.lift("row1" if "row1" in str(name) else "row2" if "row2" in str(name) else "other")

        def call(I, b, kw2):
            x = b[0]
            if isinstance(x, Arr):
                c = I.cells(x)
                r = onp.empty(c.shape, dtype=object)
                for ix in onp.ndindex(*c.shape):
                    r[ix] = T.app("interp", nm, c[ix])
                return I.arr_of(r)
            return T.app("interp", nm, I.scalar(x))
        return Builtin("interpolated", call)
    I.ext["scipy.interpolate.interp1d"] = make


def evaluate(ctx, I, o, xs, n):
    return [list(I.cells(v).reshape(-1)) for v in I.iterate(run(ctx, I, o, I.arr_of(xs)))[:n]]


def beyond(ctx):
    """points outside the benchmark's interval"""
    grid = [0, 1, 2, 3]
    for xs in ([0, 1, 2, 3, 4, 5], [Fr(1, 2), 2, Fr(29, 10), 4], [1, 4, 6], [4, 5, 6], [0, Fr(29, 10), 20], [5, 4, 2, 1, 1, 2, 4, 5], [4, Fr(29, 10), 0, Fr(29, 10), 4], [0, 1, 2, 3], [4, 3, 3, 4], [5, 1, 2], [1, 4, 0], [2, Fr(7, 2), 3]):
        I = ctx.interp()

        def node(I, path):
            def get(I, a, kw):
                p = norm(path, a[0])
                if len(p) < 2:
                    return node(I, p)
                rows = onp.empty((3, 4), dtype=object)
                for ix in onp.ndindex(3, 4):
                    rows[ix] = T.const(grid[ix[1]]) if ix[0] == 0 else T.sym("row%d" % ix[0], T.const(ix[1]))
                return I.arr_of(rows)
            return I.new_obj({"__getitem__": Builtin("get", get), "close": Builtin("close", lambda I, a, kw: None)})
        I.ext["h5py.File"] = lambda I, a, kw: node(I, ())
        I.ext["numpy.loadtxt"] = lambda I, a, kw: T.sym("table")
        interp1d(I)
        cl = I.func("load_bench")
        o = run(ctx, I, cl, source_type=I.arr_of([T.ONE] + [T.ZERO] * 5), tfinal=T.const(5), x0_or_sigma=T.sym("x0"), c=T.possym("c"), c_scaling=I.to_val(0))
        out = evaluate(ctx, I, o, [T.const(x) for x in xs], 2)
        title = "points %s of a benchmark on [0, 3]" % ([str(x) for x in xs],)
        for q, row in ((0, "row1"), (1, "row2")):
            want = [T.app("interp", T.lift(row), T.const(x)) if x <= 3 else T.ZERO for x in xs]
            ctx.equal("%s: %s" % (title, ("flux", "uncollided flux")[q]), where(cl), out[q], want, boundary=False)
    ctx.rule("benchmark value == interpolated table inside its interval, zero beyond it, at every point of the list")


def s2(ctx):
    """which pair of benchmarks (radiation, material) a thermally coupled S2 run is compared with"""
    f = None
    for src, sigma, x0, want in ((5, 300, 9, ("P1_gaussian_rad_thick", "P1_gaussian_mat_thick")), (5, Fr(1, 2), 9, ("P1_gaussian_rad", "P1_gaussian_mat")),
                                 (2, 0, 400, ("P1_su_olson_rad_thick", "P1_su_olson_mat_thick")), (2, 0, Fr(1, 2), ("P1_su_olson_rad", "P1_su_olson_mat"))):
        I = ctx.interp()
        f = I.func("s2_source_type_selector")
        st = I.arr_of([T.lift(int(k == src)) for k in range(6)])
        r = run(ctx, I, f, sigma=T.const(sigma), x0=T.const(x0), thermal_couple=I.to_val({"none": 0}), source_type=st, weights=T.lift("gauss_legendre"))
        got = []
        for v in I.iterate(r):
            c = [int(T.const_val(x)) for x in cells(I, v)]
            got.append(ORDER[c.index(1)] if c.count(1) == 1 and len(c) == 16 else None)
        ctx.require("S2 benchmarks %s" % (want,), tuple(got) == want, where(f), "source %d, sigma %s, x0 %s: benchmarks %s instead of %s" % (src, sigma, x0, got, want))
    # no reference exists for another width: none may be answered
    for src, sigma, x0 in ((5, Fr(3, 10), 9), (5, 2, 9), (5, 200, 9), (2, 0, Fr(3, 10)), (2, 0, 3), (2, 0, 390), (3, 300, 400), (0, Fr(1, 2), Fr(1, 2))):
        I = ctx.interp()
        f = I.func("s2_source_type_selector")
        st = I.arr_of([T.lift(int(k == src)) for k in range(6)])
        got = None
        try:
            r = run(ctx, I, f, sigma=T.const(sigma), x0=T.const(x0), thermal_couple=I.to_val({"none": 0}), source_type=st, weights=T.lift("gauss_legendre"))
            got = [v for v in I.iterate(r) if isinstance(v, (Arr, PyList))]
        except (Definite, Undecided):
            pass
        named = [ORDER[c.index(1)] for c in ([int(T.const_val(x)) for x in cells(I, v)] for v in got or []) if 1 in c]
        ctx.require("S2 width without a reference %s %s %s" % (src, sigma, x0), not named, where(f),
                    "source %d, sigma %s, x0 %s: compared with %s, references of another width" % (src, sigma, x0, named))
    ctx.rule("S2 problems: radiation benchmark first, material benchmark second, thick or thin by width")


def blast(ctx):
    """the blast-wave run compares its last flux profile with the reference of that time"""
    I = ctx.interp()
    xs = onp.array([[T.const(-3), T.const(0), T.const(4)], [T.const(-5), T.const(1), T.const(5)]], dtype=object)
    phi = onp.array([[T.sym("phi", T.const(i), T.const(k)) for k in range(3)] for i in range(2)], dtype=object)
    mus, ws = [T.const(Fr(-3, 5)), T.const(Fr(3, 5)), T.const(1)], [T.possym("w", T.const(k)) for k in range(3)]
    out, tf = [], T.possym("tfinal")
    I.overrides["print"] = Builtin("print", lambda I, a, kw: out.append(list(a)))
    I.overrides["run.fake_sedov"] = Builtin("reference", lambda I, a, kw: T.app("reference", *[I.scalar(v) for v in (list(a) + [kw[k] for k in ("mu", "tfinal", "x") if k in kw])[-3:]]))
    spaced = npmodel.linspace
    I.ext["numpy.linspace"] = lambda I, a, kw: spaced(I, list(a[:2]) + [T.const(3)], {k: v for k, v in kw.items() if k != "num"})

    def inter(I, a, kw):
        x, y = I.cells(a[0]), I.cells(a[1])

        def call(I, b, kw2):
            pts = I.cells(b[0]).reshape(-1)
            r = onp.empty(y.shape[:-1] + (len(pts),), dtype=object)
            for ix in onp.ndindex(*r.shape):
                r[ix] = T.app("interp", *(list(x.reshape(-1)) + list(y[ix[:-1]]) + [pts[ix[-1]]]))
            return I.arr_of(r)
        return Builtin("interpolated", call)
    I.ext["scipy.interpolate.interp1d"] = inter
    o = run(ctx, I, I.func("run"))
    for k, v in dict(xs=I.arr_of(xs), phi=I.arr_of(phi), mus=I.arr_of(mus), ws=I.arr_of(ws), tfinal=tf, v0=T.sym("v0"), t0_source=T.possym("t0")).items():
        I.setattr_obj(o, k, v)
    f = I.method(o, "fake_sedov_benchmark")
    run(ctx, I, f)
    got = [a[1] for a in out if len(a) == 2 and const_str(a[0]) is not None and const_str(a[0]).startswith("RMSE")]
    if len(got) != 1:
        raise Undecided("blast wave: the printed error was not found")
    s = T.ZERO
    pts = [xs[1][0], (xs[1][0] + xs[1][2]) / 2, xs[1][2]]
    for x in pts:
        ref = T.ZERO
        for m, w in zip(mus, ws):
            ref = ref + w * T.app("reference", m, tf, x)
        s = s + (T.app("interp", *(list(xs[1]) + list(phi[1]) + [x])) - ref) ** 2
    ctx.equal("blast wave: printed error", where(f), [I.scalar(got[0])], [T.sqrt(s / 3)], boundary=False)
    ctx.rule("printed error of the blast-wave run == root mean square of (flux of the last time, interpolated - reference of that time)")


def check(ctx):
    for s in SCEN:
        ctx.section("errors: " + s[0], errors, [s])
    ctx.section("order", order)
    ctx.section("selection", selection)
    ctx.section("beyond", beyond)
    ctx.section("S2", s2)
    ctx.section("blast wave", blast)
