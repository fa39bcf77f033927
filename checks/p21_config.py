"""P21  every configuration entry reaches the component it configures, unchanged."""
from checks.e2e import *
from checks import crossing

LEVEL = "other"
EXPLANATION = ("Value graph of a whole run from the user's entry point to the call of the time integrator, every real number of the configuration being a symbol of "
               "its own. Every component the run has built is compared, field by field, with the same component built directly from the configuration; the "
               "arguments of the integrator and one evaluation of the right-hand side it is given are compared too.")

COMPONENTS = ("build", "mesh_class", "G_L", "LU_surf", "source_class", "uncollided_solution", "scalar_flux", "rhs_class", "T_function", "sigma_integrator")


def speed(s):
    return {"one": T.ONE, "sqrt_3": 1 / T.sqrt(T.const(3))}[s]


def truth(x):
    return int(bool(x))


def expected_params(ctx, I, r, k=0, uncollided=1, moving=1):
    """parameters of the problem containers, by name, from the configuration"""
    al, mp = r.cfg["all"], r.mp
    src = [v for n, v in r.cfg.items() if n != "all"][0]
    name = [n for n in r.cfg if n != "all"][0]
    N, M = (al["N_spaces"][k], al["Ms"][k])
    nang = src["N_angles"][k]
    q = quad_tokens(I, [])
    quad = lambda n, rule, *extra: q.fn(I, [T.lift(n), T.lift(rule)] + list(extra), {})
    mus, ws = quad(nang, al["weights"], T.TRUE)
    slab = truth(al["geometry"]["slab"])
    xq, wq = quad(2 * M + 1, "gauss_legendre") if slab else quad(6 * M + 1, "chebyshev")
    tq, tw = quad(al["tnodes"], "gauss_legendre")
    qs, _ = quad(N // 2 + 1, "gauss_lobatto")
    qe, _ = quad(N // 4 + 1, "gauss_lobatto")
    lst = lambda v: I.arr_of([T.lift(x) for x in v])
    dct = lambda d: I.to_val({a: truth(b) for a, b in d.items()})
    return dict(
        N_ang=nang, N_space=N, M=M, tfinal=al["tfinal"], x0=src["x0"][k if name in ("gaussian_IC", "MMS") else 0], t0=al["t0"], mus=mus, ws=ws, xs_quad=xq, ws_quad=wq, sigma_t=al["sigma_t"],
        sigma_s=al["sigma_s"], source_type=lst(src["source_type"]), uncollided=truth(uncollided), moving=truth(moving), move_type=lst(src["move_type"]),
        t_quad=tq, t_ws=tw, thermal_couple=dct(al["radiative_transfer"]), temp_function=lst(al["temperature_dependence"]), e_initial=al["e_initial"],
        sigma=src["sigma"] if name in ("gaussian_IC", "gaussian_source") else T.ZERO, particle_v=speed(al["particle_v"]), edge_v=speed(al["edge_v"]),
        cv0=al["cv_const"], thick=truth(al["thick"]), wave_loc_array=I.arr_of(onp.array([[[T.ZERO]]], dtype=object)), source_strength=src["source_strength"],
        move_factor=mp["sqrt_t_move_factor"], l=src["l"] if al["thick"] else T.ONE, save_wave_loc=truth(mp["save_wave_loc"]), pad=mp["pad"],
        leader_pad=mp["leader_pad"], quad_thick_source=qs, quad_thick_edge=qe, boundary_on=lst(mp["boundary_on"]),
        boundary_source_strength=mp["boundary_source_strength"], boundary_source=truth(mp["boundary_source"]), sigma_func=dct(mp["sigma_func"]),
        Msigma=mp["Msigma"], finite_domain=truth(mp["finite"]), domain_width=mp["domain_width"] if mp["finite"] else T.const(-1),
        fake_sedov_v0=mp["fake_sedov_v0"], test_dimensional_rhs=truth(al["epsilon_scaling"]), epsilon=al["epsilon"], geometry=dct(al["geometry"]))


def freeze(I, v, heap, depth=0):
    """structural image of a value (numbers, arrays, dictionaries, lists)"""
    if isinstance(v, Obj):
        return ("obj", v.cls.name if v.cls else "")
    if isinstance(v, PyDict):
        d = heap[v.id] if v.id in heap else I.st.heap[v.id]
        return ("dict", tuple(sorted((str(k), freeze(I, x, heap, depth + 1)) for k, x in d.items())))
    if isinstance(v, (PyList, tuple)):
        it = v if isinstance(v, tuple) else I.iterate(v)
        return ("seq", tuple(freeze(I, x, heap, depth + 1) for x in it))
    if isinstance(v, Arr):
        return ("arr", tuple(I.cells(v).reshape(-1)))
    if isinstance(v, T.V):
        return ("val", T.num(v) if isinstance(v, T.BoolL) and not isinstance(T.num(v), T.StrL) else v)
    return ("other", type(v).__name__)


def leaves(x):
    if x[0] == "val":
        return [x[1]]
    if x[0] == "arr":
        return list(x[1])
    if x[0] == "seq":
        return [z for y in x[1] for z in leaves(y)]
    if x[0] == "dict":
        return [z for _, y in x[1] for z in leaves(y)]
    return [T.lift("%s" % (x,))]


SCEN = [
    ("plane pulse", "plane_IC", {}, 1, 1), ("square pulse", "square_IC", {}, 0, 1), ("square source", "square_source", {}, 1, 0),
    ("gaussian pulse", "gaussian_IC", {}, 0, 0), ("gaussian source", "gaussian_source", {}, 1, 1), ("manufactured", "MMS", {}, 0, 1),
    ("speeds", "plane_IC", dict(edge_v="sqrt_3", particle_v="sqrt_3"), 1, 1), ("edge speed", "plane_IC", dict(edge_v="sqrt_3"), 1, 1),
    ("thick", "plane_IC", dict(thick=True), 1, 1), ("finite", "square_source", dict(finite=True), 1, 1),
    ("boundary source", "plane_IC", dict(boundary_source=True, boundary_on=[1, 0]), 0, 0), ("right boundary", "plane_IC", dict(boundary_on=[0, 1]), 0, 0),
    ("opacity", "plane_IC", dict(sigma_func={"constant": False, "gaussian": True, "siewert1": False, "siewert2": False, "fake_sedov": False}, Msigma=2), 0, 0),
    ("scaling", "plane_IC", dict(epsilon_scaling=True), 1, 1), ("motion", "plane_IC", dict(move_type=[0, 0, 1, 0]), 1, 1),
    ("quadratures", "plane_IC", dict(weights="gauss_lobatto", tnodes=3, sizes=((4, 4, 2),)), 1, 1),
    ("sphere pulse", "plane_IC", dict(geometry="sphere", sizes=((4, 2, 1),)), 0, 1), ("sphere square pulse", "square_IC", dict(geometry="sphere"), 1, 1),
    ("dipole", "dipole", dict(source_type=[2, 0, 0, 0, 0, 0]), 0, 0), ("self-similar plane", "self_sim_plane", dict(source_type=[3, 0, 0, 0, 0, 0], thick=True), 0, 0),
    ("boundary entry", "boundary_source", dict(boundary_source=True, boundary_on=[1, 0]), 0, 1), ("right boundary entry", "boundary_source", dict(boundary_source=True, boundary_on=[0, 1]), 0, 0),
    ("wave saving", "plane_IC", dict(save_wave_loc=True), 1, 1), ("thermal", "plane_IC", dict(radiative_transfer={"none": False, "rad_transfer": True, "const_cv": False}), 1, 1),
]


def capture(r, d):
    """structural images of all components at the moment integration starts"""
    I = r.I
    im = {}
    for o in I.created:
        if o.cls is not None and o.cls.name in COMPONENTS:
            im.setdefault(o.cls.name, []).append({k: freeze(I, v, I.st.heap) for k, v in I.st.heap[o.id].items()})
    d["image"] = im
    d["y0v"] = list(I.cells(d["y0"]).reshape(-1))


def reference(ctx, r, k, unc, mov):
    """the same components, built by parameter name from the configuration"""
    J = ctx.interp()
    J.exact = True          # a configured number must not be cut to an integer on its way
    h5ext(J, files(J, 3), [])
    J.overrides["quadrature"] = quad_tokens(J, [])
    fresh = lambda: {a: J.to_val(b) for a, b in expected_params(ctx, J, r, k, unc, mov).items()}
    P = fresh()
    b = construct(ctx, J, "build", P)
    f = J.method(b, "make_IC")
    run(ctx, J, f)
    # the initial state is made on a mesh of its own: what it was given is still as configured
    kept, conf = P, fresh()
    for a in sorted(conf):
        if isinstance(conf[a], Arr):
            ctx.require("configured array kept", freeze(J, kept[a], J.st.heap) == freeze(J, conf[a], J.st.heap), where(f), "making the initial state alters the configured %s" % a)
    P = fresh()
    give = J.iterate(run(ctx, J, run(ctx, J, J.func("file_reader"))))
    ref = {"build": b, "mesh_class": construct(ctx, J, "mesh_class", P)}
    for a in sorted(conf):
        if isinstance(conf[a], Arr):
            ctx.require("configured array kept by the mesh", freeze(J, P[a], J.st.heap) == freeze(J, conf[a], J.st.heap), loc(ref["mesh_class"].cls.node), "setting up the mesh alters the configured %s" % a)
    P = fresh()
    ref["G_L"] = run(ctx, J, J.func("G_L", used_by_solver(J, "G_L")), b, *give)
    for n in COMPONENTS[3:]:
        ref[n] = construct(ctx, J, n, {"build": b})
    run(ctx, J, J.method(ref["scalar_flux"], "load_AAA"), J.getattr_obj(ref["sigma_integrator"], "AAA"))
    return J, P, ref


def same_components(ctx, title, r, d, k, unc, mov):
    J, P, ref = reference(ctx, r, k, unc, mov)
    for n in COMPONENTS:
        o = ref[n]
        want = {a: freeze(J, v, J.st.heap) for a, v in J.st.heap[o.id].items()}
        ims = d["image"].get(n, [])
        wh = "%s %s" % (loc(o.cls.node), n)
        if not ctx.require("%s: %s is built" % (title, n), bool(ims), where(r.f), "the run builds no %s" % n):
            continue
        # the initial condition uses a mesh of its own: the configured component is among those built
        best = None
        for im in ims:
            bad = []
            for a in sorted(want):
                g, w = im.get(a), want[a]
                if g is None:
                    bad.append((a, "missing"))
                elif g != w:
                    gl, wl = leaves(g), leaves(w)
                    if len(gl) != len(wl):
                        bad.append((a, "%d values where %d are required" % (len(gl), len(wl))))
                    else:
                        for x, y in zip(gl, wl):
                            mm = C.mismatches(x, y, (), False, limit=1)
                            if mm:
                                bad.append((a, mm[0].text()))
                                break
            if best is None or len(bad) < len(best):
                best = bad
        ctx.require("%s: %s" % (title, n), not best, wh, "%s: field %s of %s is not what the configuration says: %s" % (
            title, best[0][0] if best else "", n, best[0][1] if best else ""))
    want0 = list(J.cells(J.getattr_obj(ref["build"], "IC")).reshape(-1))
    ctx.equal("%s: initial state" % title, where(r.f), d["y0v"], want0, boundary=False)
    return J, P, ref


def integrator(ctx, title, r, d, k):
    al, I = r.cfg["all"], r.I
    span = cells(I, d["t_span"])
    ctx.equal("%s: time span" % title, where(r.f), span, [T.ZERO, al["tfinal"]])
    for key, want in (("rtol", al["rt"]), ("atol", al["at"]), ("max_step", al["mxstp"]), ("method", T.lift(al["integrator"]))):
        ctx.equal("%s: integrator %s" % (title, key), where(r.f), [I.scalar(d[key])] if key in d else [T.lift("not given")], [want])
    te = cells(I, d["t_eval"]) if d.get("t_eval") is not None else [al["tfinal"]]
    want = list(r.mp["eval_array"]) if r.mp["eval_times"] else [al["tfinal"]]
    ctx.equal("%s: output times" % title, where(r.f), te, want)


def wiring(ctx, scen):
    for title, entry, over, unc, mov in scen:
        r = Run(ctx, entry, unc, mov, **over)
        r.on_ivp = capture
        r.go()
        if title != "thermal" and not ctx.require("%s: reaches the integrator" % title, bool(r.ivp), where(r.f), "the run stops before integrating: %s" % r.raised):
            continue
        if not r.ivp:
            continue
        d = r.ivp[0]
        same_components(ctx, title, r, d, 0, unc, mov)
        integrator(ctx, title, r, d, 0)
    ctx.rule("each component of the run == the component built by parameter name from the configuration, field by field; integrator arguments == configuration")


def several(ctx):
    """run k uses the k-th sizes"""
    for major in ("cells", "Ms"):
        for name in ("plane_IC", "gaussian_IC", "MMS"):
            if name == "plane_IC":
                sizes = ((4, 2, 1), (6, 4, 0)) if major == "cells" else ((4, 2, 1), (4, 4, 0))
            else:
                sizes = ((2, 2, 1), (4, 4, 0), (2, 2, 0), (4, 2, 0)) if major == "cells" else ((2, 2, 1), (2, 4, 0), (2, 2, 0), (2, 4, 1))
            over = {"x0": [T.possym("c_x%d" % k) for k in range(len(sizes))]}
            r = Run(ctx, name, 0, 1, major=major, sizes=sizes, **over)
            r.on_ivp = capture
            r.go()
            if not ctx.require("%s by %s: %d runs" % (name, major, len(sizes)), len(r.ivp) == len(sizes), where(r.f), "%d integrations for %d sizes: %s" % (len(r.ivp), len(sizes), r.raised)):
                continue
            seen = 0
            for k, d in enumerate(r.ivp):
                same_components(ctx, "%s by %s, run %d" % (name, major, k), r, since(r, k), k, 0, 1)
    ctx.rule("the k-th run uses the k-th number of cells, angles, order (and half width for Gaussian pulses and the manufactured problem)")


def since(r, k):
    """the k-th integration, with the components built since the previous one"""
    d = dict(r.ivp[k])
    d["image"] = {n: v[len(r.ivp[k - 1]["image"].get(n, [])) if k else 0:] for n, v in d["image"].items()}
    return d


def variants(ctx):
    """all four variants in one call, and repeated runs"""
    four = ((1, 1), (0, 1), (1, 0), (0, 0))
    for entry in ("plane_IC", "square_IC", "square_source", "gaussian_IC", "gaussian_source", "MMS"):
        r = Run(ctx, entry, 1, 1)
        r.args.append(1)
        r.on_ivp = capture
        r.go()
        if not ctx.require("%s, all variants: four integrations" % entry, len(r.ivp) == 4, where(r.f), "%d integrations for the four variants: %s" % (len(r.ivp), r.raised)):
            continue
        left = list(four)
        for k in range(4):
            d = since(r, k)
            b = d["image"].get("build", [{}])[-1]
            v = tuple(int(T.const_val(leaves(b[a])[0])) if a in b and T.is_const(leaves(b[a])[0]) else None for a in ("uncollided", "moving"))
            if not ctx.require("%s, variant %d is one of the four" % (entry, k), v in left, where(r.f), "variant (uncollided, moving) = %s is run %s" % (v, "twice" if v in four else "")):
                continue
            left.remove(v)
            same_components(ctx, "%s, variant %d %d" % ((entry,) + v), r, d, 0, *v)
            integrator(ctx, "%s, variant %d %d" % ((entry,) + v), r, d, 0)
    for entry, unc, mov in (("plane_IC", 1, 1), ("square_source", 0, 1), ("MMS", 0, 1)):
        r = Run(ctx, entry, unc, mov, N_runs=3)
        r.on_ivp = capture
        r.go()
        if not ctx.require("%s, three repetitions: integrations" % entry, len(r.ivp) == 3, where(r.f), "%d integrations for three repetitions: %s" % (len(r.ivp), r.raised)):
            continue
        for k in range(3):
            d = since(r, k)
            same_components(ctx, "%s, repetition %d" % (entry, k), r, d, 0, unc, mov)
            integrator(ctx, "%s, repetition %d" % (entry, k), r, d, 0)
    ctx.rule("all variants: each of the four (uncollided, moving) pairs once, each with the components of that pair; repetitions: each the configured problem")


def rhs(ctx):
    """the function handed to the integrator is the right-hand side of the configured components"""
    for title, entry, over, unc, mov in (("slab", "plane_IC", {}, 0, 1), ("slab source", "square_source", {}, 1, 1), ("sphere", "plane_IC", dict(geometry="sphere", sizes=((2, 2, 0),)), 0, 1)):
        over = dict(dict(sizes=((2, 2, 0),)), **over)
        if entry == "square_source":
            over["sizes"] = ((4, 2, 0),)
        r = Run(ctx, entry, unc, mov, **over)
        t = T.possym("tt")
        got = {}

        def on(r, d):
            n = r.I.cells(d["y0"]).size
            V = r.I.vec("V", n)
            y = run(ctx, r.I, d["fun"], t, V)
            got["v"] = list(r.I.cells(y).reshape(-1))
            got["n"] = n
        r.on_ivp = on
        r.go()
        if not ctx.require("%s: right-hand side" % title, "v" in got, where(r.f), "the right-hand side cannot be evaluated: %s" % r.raised):
            continue
        J, P, ref = reference(ctx, r, 0, unc, mov)
        f = J.method(ref["rhs_class"], "call")
        want = run(ctx, J, f, t, J.vec("V", got["n"]), ref["mesh_class"], ref["G_L"], ref["LU_surf"], ref["source_class"], ref["uncollided_solution"],
                   ref["scalar_flux"], ref["T_function"], ref["sigma_integrator"])
        ctx.equal("%s: right-hand side" % title, where(f), got["v"], list(J.cells(want).reshape(-1)), boundary=False)
    ctx.rule("rhs(t, V) of the integrator == rhs of the hand-wired components, for a symbolic state and time")


def check(ctx):
    ctx.section("components", wiring, SCEN)
    for s in crossing.scenarios(**crossing.REPORT):
        ctx.section("crossed: " + s[0], wiring, [s])
    ctx.section("several sizes", several)
    ctx.section("variants", variants)
    ctx.section("right-hand side", rhs)
