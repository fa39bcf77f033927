"""P23  reported results: the integrator's solution at the requested time, on the mesh of that time, at the requested points."""
from checks.e2e import *
from checks.p21_config import reference
from checks import crossing

LEVEL = "other"
EXPLANATION = ("Value graph of a whole run with a symbolic integrator solution (one symbol per unknown and output time). Every field the user gets back is compared "
               "with the output evaluation of the column of that time, on a mesh moved to that time, at the requested points.")
FIELDS = ("xs", "phi", "psi", "exit_dist", "exit_phi", "ws", "mus")
SCEN = [
    ("default points", "plane_IC", {}, 1, 1), ("default points, static", "plane_IC", {}, 0, 0), ("chosen points", "plane_IC", dict(choose_xs=True), 1, 1),
    ("several times", "plane_IC", dict(eval_times=True), 1, 1), ("several times, chosen points", "plane_IC", dict(eval_times=True, choose_xs=True), 1, 0),
    ("three times, static", "plane_IC", dict(eval_times=True, eval_array=[T.possym("c_t%d" % k) for k in (1, 2, 3)]), 1, 0),
    ("four times, square source", "square_source", dict(eval_times=True, eval_array=[T.possym("c_t%d" % k) for k in (1, 2, 3, 4)], sizes=((4, 2, 0),)), 0, 1),
    ("one time", "plane_IC", dict(eval_times=True, eval_array=[T.possym("c_t1")]), 1, 1),
    ("square source", "square_source", {}, 1, 1), ("two sizes", "plane_IC", dict(sizes=((4, 2, 1), (2, 4, 0))), 1, 1),
    ("two sizes, several times", "plane_IC", dict(sizes=((2, 4, 0), (4, 2, 1)), eval_times=True), 1, 1),
    ("Gaussian pulse", "gaussian_IC", {}, 1, 1), ("sphere", "plane_IC", dict(geometry="sphere"), 0, 1), ("sphere, several times", "plane_IC", dict(geometry="sphere", eval_times=True), 0, 1),
    ("manufactured", "MMS", {}, 0, 1),
    ("chosen points, numbers", "plane_IC", dict(choose_xs=True, tfinal=T.const(1), x0=[T.const(Fr(1, 2))], edge_v="one",
                                                xs_list=[T.const(Fr(v)) for v in ("3", "-1/3", "1/5", "-1/3", "0", "-7/2", "1/7")]), 1, 1),
    ("dipole", "dipole", dict(source_type=[2, 0, 0, 0, 0, 0]), 0, 0), ("self-similar plane", "self_sim_plane", dict(source_type=[3, 0, 0, 0, 0, 0], thick=True), 0, 0),
    ("boundary source", "boundary_source", dict(boundary_source=True, boundary_on=[1, 0]), 0, 1),
    ("boundary source on the right", "boundary_source", dict(boundary_source=True, boundary_on=[0, 1], eval_times=True, sizes=((2, 2, 0),)), 0, 0),
    ("solution in numbers", "square_IC", {}, 0, 1), ("solution in numbers, sphere", "square_IC", dict(geometry="sphere", sizes=((4, 2, 0),)), 0, 1),
    ("solution in numbers, several times", "square_IC", dict(eval_times=True), 0, 0),
    ("solution recorded along the way", "plane_IC", dict(estimate_wavespeed=True, sizes=((2, 2, 0),)), 0, 1),
]


def expected(ctx, r, k, unc, mov):
    """fields by evaluating the output stage directly"""
    J, P, ref = reference(ctx, r, k, unc, mov)
    y = "Y%d" % k
    src = [v for n, v in r.cfg.items() if n != "all"][0]
    N, L, M = r.cfg["all"]["N_spaces"][k], src["N_angles"][k], r.cfg["all"]["Ms"][k]
    several = r.mp["eval_times"]
    times = r.mp["eval_array"] if several else [r.cfg["all"]["tfinal"]]
    out = {f: [] for f in FIELDS}
    for it, t in enumerate(times):
        if not several:
            it = r.columns - 1      # the last recorded time
        run(ctx, J, J.method(ref["mesh_class"], "move"), t)
        edges_ = J.getattr_obj(ref["mesh_class"], "edges")
        xs = J.arr_of(r.mp["xs_list"]) if r.mp["choose_xs"] else run(ctx, J, J.func("find_nodes", used_by_solver(J, "find_nodes")), edges_, M, P["geometry"])
        col = onp.empty((L, N, M + 1), dtype=object)
        for n, ix in enumerate(onp.ndindex(L, N, M + 1)):
            col[ix] = T.sym(y, T.const(n), T.const(it)) if r.value is None else r.value(k, n, it)
        o = construct(ctx, J, "make_output", dict(t=J.to_val(t), N_ang=J.to_val(L), ws=P["ws"], xs=xs, u=J.arr_of(col), M=J.to_val(M), edges=edges_,
                                                  uncollided=P["uncollided"], geometry=P["geometry"]))
        out["phi"] += list(J.cells(run(ctx, J, J.method(o, "make_phi"), ref["uncollided_solution"])).reshape(-1))
        out["psi"] += list(J.cells(J.getattr_obj(o, "psi_out")).reshape(-1))
        ed, ep = J.iterate(run(ctx, J, J.method(o, "get_exit_dist"), ref["uncollided_solution"]))
        out["exit_dist"] += list(J.cells(ed).reshape(-1))
        out["exit_phi"] += list(J.cells(ep).reshape(-1))
        out["xs"] += list(J.cells(xs).reshape(-1))
    out["ws"], out["mus"] = list(J.cells(P["ws"])), list(J.cells(P["mus"]))
    return out


def shape_of(ctx, title, r, k):
    """several times: leading axis over the times"""
    for f in ("xs", "phi", "psi", "exit_dist", "exit_phi"):
        a = r.out(f)
        n = len(r.mp["eval_array"])
        ctx.require("%s: %s is ordered by time" % (title, f), isinstance(a, Arr) and a.shape[0] == n, where(r.f), "%s: %s has no leading time axis" % (title, f))


def results(ctx, scen):
    for title, entry, over, unc, mov in scen:
        r = Run(ctx, entry, unc, mov, **over)
        if title.startswith("solution in numbers"):
            # a computed flux with negative, zero and positive values
            r.value = lambda n, i, j: T.const(Fr((i * 7 + j) % 11 - 5 if i % 8 > 1 else 0, 3))
        r.go()
        n = len(r.cfg["all"]["N_spaces"])
        if not ctx.require("%s: finishes" % title, r.raised is None and len(r.ivp) == n, where(r.f), "%s: the run does not finish: %s" % (title, r.raised)):
            continue
        want = expected(ctx, r, n - 1, unc, mov)
        for f in FIELDS:
            got = r.out(f)
            ctx.equal("%s: %s" % (title, f), where(r.f), [x for x in cells(r.I, got)], want[f], boundary=False)
        if r.mp["eval_times"]:
            shape_of(ctx, title, r, n - 1)
        for a, b in (("x0", [v for q, v in r.cfg.items() if q != "all"][0]["x0"]), ("tfinal", [r.cfg["all"]["tfinal"]]), ("t0_source", [r.cfg["all"]["t0"]]),
                     ("v0", [r.mp["fake_sedov_v0"]]), ("eval_array", r.mp["eval_array"])):
            ctx.equal("%s: %s" % (title, a), where(r.f), cells(r.I, r.out(a)), list(b), boundary=False)
        ctx.equal("%s: no material energy without coupling" % title, where(r.f), cells(r.I, r.out("e")), [T.ZERO] * len(cells(r.I, r.out("e"))))
    ctx.rule("xs, phi, psi, exit distribution and exit flux == output stage on column t of the solution, mesh moved to t, requested points (or the nodes of that mesh); "
             "with several sizes, those of the last one")


def nodes(ctx):
    """the points a run reports at when none are asked for: the Gauss nodes of every cell, from left to right"""
    from sa.npmodel import leggauss
    for g in ("slab", "sphere"):
        for M in (0, 1, 2, 3, 6):
            for N in (1, 3, 33):
                I = ctx.interp()
                f = I.func("find_nodes", used_by_solver(I, "find_nodes"))
                E, hs = edges(I, N, free=some(N))
                got = list(I.cells(run(ctx, I, f, I.arr_of(E), M, geom(I, g))))
                n = max(M, 1)
                if g == "slab":
                    z = list(I.cells(leggauss(I, [T.const(n)], {})[0]))
                else:
                    z = [T.func("cos", T.const(Fr(2 * i - 1, 2 * n)) * PI) for i in range(n, 0, -1)]
                want = [E[k] + hs[k] * (q + 1) / 2 for k in range(N) for q in z]
                ctx.equal("default points %s M=%d cells=%d" % (g, M, N), where(f), got, want, boundary=False)
    ctx.rule("default points: the max(M, 1) Gauss (Legendre or Chebyshev) nodes of every cell, increasing")


def opposite(ctx):
    """boundary-source runs finish for every opacity and return the same fields"""
    for op in ("constant", "gaussian", "siewert1", "siewert2"):
        d = {k: k == op for k in ("constant", "linear", "gaussian", "siewert1", "siewert2", "fake_sedov")}
        r = Run(ctx, "boundary_source", 0, 0, sigma_func=d, boundary_source=True, boundary_on=[1, 0], finite=True, Msigma=0, sizes=((2, 2, 0),))
        try:
            r.go()
        except Undecided:
            if not r.ivp or r.I.raises:
                raise
        keyerr = [loc(n) for _, k, n in r.I.raises if k == "KeyError"]
        ctx.require("boundary source, %s opacity" % op, bool(r.ivp) and not keyerr and r.raised is None, where(r.f), "the run stops: %s %s" % (r.raised, keyerr))
    ctx.rule("a boundary-source run finishes for every opacity")


def coupled(ctx):
    r = Run(ctx, "plane_IC", 0, 1, radiative_transfer={"none": False, "rad_transfer": True, "const_cv": False}, sizes=((2, 2, 0),))
    st = {}

    def on(r, d):
        n = r.I.cells(d["y0"]).size
        try:
            y = run(ctx, r.I, d["fun"], T.possym("tt"), r.I.vec("V", n))
            st["n"] = (n, r.I.cells(y).size)
        except (Undecided, Definite, ValueError) as e:
            st["err"] = "%s" % e
    r.on_ivp = on
    try:
        r.go()
    except Undecided as e:
        st.setdefault("err", str(e))
    ctx.require("coupled: right-hand side", "n" in st and st["n"][0] == st["n"][1], where(r.f), "coupled: right-hand side of a coupled state: %s" % (st,), defect="coupled_rhs")
    for several in (0, 1):
        r = Run(ctx, "plane_IC", 0, 1, radiative_transfer={"none": False, "rad_transfer": True, "const_cv": False}, sizes=((2, 2, 1),), eval_times=bool(several))
        r.go()
        title = "coupled: material energy" + (", several times" if several else "")
        J, P, ref = reference(ctx, r, 0, 0, 1)
        L, N, M = 2, 2, 1
        want = []
        for it, t in enumerate(r.mp["eval_array"] if several else [r.cfg["all"]["tfinal"]]):
            run(ctx, J, J.method(ref["mesh_class"], "move"), t)
            ed = J.getattr_obj(ref["mesh_class"], "edges")
            xs = run(ctx, J, J.func("find_nodes", used_by_solver(J, "find_nodes")), ed, M, P["geometry"])
            col = onp.empty((L + 1, N, M + 1), dtype=object)
            for n, ix in enumerate(onp.ndindex(*col.shape)):
                col[ix] = T.sym("Y0", T.const(n), T.const(it))
            o = construct(ctx, J, "make_output", dict(t=J.to_val(t), N_ang=J.to_val(L), ws=P["ws"], xs=xs, u=J.arr_of(col), M=J.to_val(M), edges=ed,
                                                      uncollided=P["uncollided"], geometry=P["geometry"]))
            want += list(J.cells(run(ctx, J, J.method(o, "make_e"))).reshape(-1))
        ctx.equal(title, where(r.f), cells(r.I, r.out("e")), want, boundary=False)
    ctx.rule("a coupled state (material row included) has a right-hand side of its own size; the reported material energy is the material row of the state of each time")


def check(ctx):
    for s in SCEN:
        ctx.section("results: " + s[0], results, [s])
    for s in crossing.scenarios(**crossing.REPORT):
        ctx.section("crossed: " + s[0], results, [s])
    ctx.section("points", nodes)
    ctx.section("boundary source", opposite)
    ctx.section("coupled", coupled)
