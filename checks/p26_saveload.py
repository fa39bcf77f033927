"""P26  what is saved is what the loader gives back."""
from checks.e2e import *
from checks.h5store import Store, show

LEVEL = "other"
EXPLANATION = ("Saver and loader are interpreted over one model of the data file (tree of groups and data sets, paths as string templates with symbolic numbers). Every "
               "loaded field is compared with the saved one, for whole runs with saving switched on, for a second saving under the same settings, and after other "
               "settings have been saved, one setting changed at a time.")
FIELDS = ("xs", "phi", "psi", "mus", "ws", "edges", "coeff_mat")


def arr(I, nm, *shape):
    a = onp.empty(shape, dtype=object)
    for ix in onp.ndindex(*shape):
        a[ix] = T.sym(nm, *[T.const(i) for i in ix])
    return I.arr_of(a)


BASE = dict(problem="transport", source=0, unc=1, mov=1, t=T.possym("tA"), N=4, c=T.possym("cA"), x0=T.possym("xA"), eps=T.ONE, cv=T.possym("cvA"))
NAMES = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "MMS", "gaussian_s"]
FOLDER = {"transport": "transport", "su_olson": "su_olson", "su_olson_s2": "su_olson_s2", "su_olson_thick": "su_olson_thick", "su_olson_thick_s2": "su_olson_thick_s2"}


def sizes_of(tag):
    return {"A": (3, 2, 4), "B": (5, 3, 2)}[tag]


def save(ctx, I, s, tag):
    """save solution `tag` under settings s; returns the saved fields"""
    n, L, N = sizes_of(tag)
    src = [0] * 6
    src[s["source"]] = 1
    src = s.get("src", src)
    none = I.to_val({"none": 1, "rad_transfer": 0, "const_cv": 0})
    lst = lambda v: I.arr_of([T.lift(x) for x in v])
    o = construct(ctx, I, "save_output", dict(tfinal=s["t"], N_spaces=lst([s["N"]]), Ms=lst([1]), source_type=lst(src), moving=I.to_val(s["mov"]), uncollided=I.to_val(s["unc"]),
                                              major=T.lift("cells"), thermal_couple=none, temp_function=lst([0, 1]), c=s["c"], sigma=T.sym("sg"), x0=I.arr_of([s["x0"]]),
                                              cv_const=s["cv"], problem_type=T.lift(s["problem"]), N_angles=lst([L]), epsilon=s["eps"]))
    f = dict(xs=arr(I, "xs" + tag, n), phi=arr(I, "phi" + tag, n), e=arr(I, "e" + tag, n), sol_matrix=arr(I, "C" + tag, L, N, 2), edges=arr(I, "ed" + tag, N + 1),
             ws=arr(I, "ws" + tag, L), psi=arr(I, "psi" + tag, L, n), mus=arr(I, "mus" + tag, L))
    P = dict(f, x0_or_sigma=s["x0"], N_space=I.to_val(s["N"]), s2=T.TRUE if s.get("s2") else T.FALSE, epsilon=s["eps"])
    run(ctx, I, I.method(o, "save_solution"), **P)
    return {"xs": f["xs"], "phi": f["phi"], "psi": f["psi"], "mus": f["mus"], "ws": f["ws"], "edges": f["edges"], "coeff_mat": f["sol_matrix"], "e": f["e"]}


DOC = {"rad_transfer_constant_cv" + k: "rad_transfer_const_cv" + k for k in ("", "_s2", "_thick", "_thick_s2")}      # names of the documentation


def load(ctx, I, s, file="run_data.hdf5"):
    P = dict(problem_name=T.lift(DOC.get(s["problem"], s["problem"])), source_name=T.lift(NAMES[s["source"]]), rad_or_transfer=T.lift("rad" if s["problem"] == "transport" else "transfer"),
             c=s["c"], s2=T.FALSE, cv0=s["cv"], file_name=T.lift(file))
    if file is None:
        del P["file_name"]
    o = run(ctx, I, I.func("load_sol"), **P)
    run(ctx, I, I.method(o, "call_sol"), s["t"], I.to_val(1), s["x0"], I.to_val(s["N"]), T.lift("rad"), I.to_val(s["unc"]), I.to_val(s["mov"]), **({"epsilon": s["eps"]} if s["eps"] is not T.ONE else {}))
    return o


def stopped(I):
    return [(k, loc(n)) for _, k, n in I.raises]


def compare(ctx, I, title, o, want, s, wh, defect=None):
    for f in FIELDS:
        w = list(I.cells(want[f]).reshape(-1))
        if f == "coeff_mat" and s["problem"] != "transport":
            w = list(I.cells(want[f])[:-1].reshape(-1))
        g = cells(I, I.getattr_obj(o, f))
        if defect and f in ("psi", "mus"):
            ctx.require("%s: %s" % (title, f), len(g) == len(w) and all(x is y for x, y in zip(g, w)), wh, "%s: %s loaded is not the one saved under these settings" % (title, f), defect=defect)
            continue
        ctx.equal("%s: %s" % (title, f), wh, g, w, boundary=False)
    if s["problem"] != "transport":
        ctx.equal("%s: e" % title, wh, cells(I, I.getattr_obj(o, "e")), list(I.cells(want["e"]).reshape(-1)), boundary=False)


def fresh(ctx):
    I = ctx.interp()
    st = Store()
    st.install(I)
    return I, st


def trips(ctx, title, s, defect=None):
    I, st = fresh(ctx)
    wh = where(I.func("save_output"))
    try:
        want = save(ctx, I, s, "A")
        o = load(ctx, I, s)
    except (Definite, KeyError) as e:
        ctx.require("%s: saved and loaded" % title, False, wh, "%s: %s; %s; file has %s" % (title, e, stopped(I), sorted(show(p) for f in st.files.values() for p in f)), defect=defect)
        return
    ctx.require("%s: saved and loaded" % title, not stopped(I), wh, "%s stops: %s" % (title, stopped(I)))
    compare(ctx, I, title, o, want, s, wh)
    # again under the same settings, other data and sizes of the data
    try:
        want = save(ctx, I, s, "B")
        o = load(ctx, I, s)
    except Definite as e:
        ctx.require("%s: saved again" % title, False, wh, "%s: saving again stops: %s %s" % (title, e, stopped(I)))
        return
    ctx.require("%s: saved again" % title, not stopped(I), wh, "%s stops: %s" % (title, stopped(I)))
    compare(ctx, I, title + ", saved again", o, want, s, wh)


def round_trip(ctx):
    for p in FOLDER:
        for unc in (0, 1):
            for mov in (0, 1):
                trips(ctx, "%s %d%d" % (p, unc, mov), dict(BASE, problem=p, unc=unc, mov=mov))
        trips(ctx, "%s two angles" % p, dict(BASE, problem=p, s2=1))
        trips(ctx, "%s scaled" % p, dict(BASE, problem=p, eps=T.const(Fr(1, 2))))
    for k in range(6):
        trips(ctx, "source %s" % NAMES[k], dict(BASE, source=k))
    for p in DOC:
        trips(ctx, p, dict(BASE, problem=p))
    ctx.rule("loaded field == saved field, value by value, for each problem, source, pair of switches; a second saving replaces the first")


def distinct(ctx):
    changes = [dict(t=T.possym("tB")), dict(N=8), dict(c=T.possym("cB")), dict(x0=T.possym("xB")), dict(unc=0), dict(mov=0), dict(unc=0, mov=0), dict(source=1), dict(source=2),
               dict(eps=T.const(Fr(1, 2))), dict(eps=T.const(2)), dict(problem="su_olson")]
    for ch in changes:
        for first in (BASE, None):
            a, b = (BASE, dict(BASE, **ch)) if first is BASE else (dict(BASE, **ch), BASE)
            I, st = fresh(ctx)
            wh = where(I.func("save_output"))
            title = "%s saved %s" % (sorted(ch), "after" if first is BASE else "before")
            wa = save(ctx, I, a, "A")
            wb = save(ctx, I, b, "B")
            d = "psi_at_root" if "problem" in ch else None
            compare(ctx, I, title + ": the first", load(ctx, I, a), wa, a, wh, defect=d)
            compare(ctx, I, title + ": the second", load(ctx, I, b), wb, b, wh)
            ctx.require(title + ": no error", not stopped(I), wh, "%s stops: %s" % (title, stopped(I)))
    ctx.rule("two solutions whose settings differ in one entry are both loaded unchanged, whichever was saved first")


def special(ctx):
    """a run of a problem outside the six named sources leaves their saved solutions alone"""
    for title, src, other in (("boundary source", [0] * 6, 0), ("dipole", [2, 0, 0, 0, 0, 0], 0), ("self-similar plane", [3, 0, 0, 0, 0, 0], 1)):
        for source in range(6):
            I, st = fresh(ctx)
            wh = where(I.func("save_output"))
            s = dict(BASE, source=source)
            want = save(ctx, I, s, "A")
            save(ctx, I, dict(s, src=src), "B")
            o = load(ctx, I, s)
            same = all(len(cells(I, I.getattr_obj(o, f))) == len(cells(I, want[f])) and all(x is y for x, y in zip(cells(I, I.getattr_obj(o, f)), cells(I, want[f]))) for f in ("xs", "phi", "psi", "edges", "coeff_mat"))
            ctx.require("%s saved over %s" % (title, NAMES[source]), same and not stopped(I), wh, "a saved %s run replaces the saved %s run of the same settings: %s" % (title, NAMES[source], stopped(I)),
                        defect="special_sources_share_names" if source == other else None)
    ctx.rule("saving a boundary-source, dipole or self-similar run leaves the solutions saved for the six named sources unchanged")


def whole(ctx):
    """a run with saving on, then the loader"""
    for title, entry, over, unc, mov in (("plane pulse", "plane_IC", {}, 1, 1), ("square source", "square_source", {}, 0, 1), ("gaussian pulse", "gaussian_IC", {}, 1, 0),
                                        ("two sizes", "plane_IC", dict(sizes=((4, 2, 1), (2, 4, 0))), 1, 1), ("several times", "plane_IC", dict(eval_times=True), 1, 1), ("one time", "plane_IC", dict(eval_times=True, eval_array=[T.possym("c_t1")]), 1, 1),
                                        ("three times, static", "plane_IC", dict(eval_times=True, eval_array=[T.possym("c_t%d" % k) for k in (1, 2, 3)]), 0, 0),
                                        ("chosen points", "plane_IC", dict(choose_xs=True), 0, 0)):
        r = Run(ctx, entry, unc, mov, save_solution=True, epsilon=T.ONE, **over)
        st = Store()
        trees = files(r.I, 3)
        st.install(r.I)
        opener = r.I.ext["h5py.File"]

        def both(I, a, kw, opener=opener, trees=trees):
            from sa.interp import const_str
            base = (const_str(a[0] if isinstance(a[0], T.V) else I.scalar(a[0])) or "").split("/")[-1]
            for nm in ("Mass", "VV", "J", "G", "L"):
                if base.startswith(nm):
                    return h5node(I, trees[nm])
            return opener(I, a, kw)
        r.I.ext["h5py.File"] = both
        r.go()
        I, wh = r.I, where(r.f)
        if not ctx.require("%s: run with saving finishes" % title, r.raised is None and not stopped(I), wh, "%s: %s %s" % (title, r.raised, stopped(I))):
            continue
        al = r.cfg["all"]
        src = r.cfg[entry]
        s = dict(problem="transport", source=ENTRIES[entry], unc=unc, mov=mov, N=al["N_spaces"][-1], c=al["sigma_s"] / al["sigma_t"], cv=al["cv_const"], eps=al["epsilon"],
                 x0=src["sigma"] if "gaussian" in entry else src["x0"][0])
        times = r.mp["eval_array"] if r.mp["eval_times"] else [al["tfinal"]]
        for k, t in enumerate(times):
            s["t"] = t
            try:
                o = load(ctx, I, s)
            except Definite as e:
                ctx.require("%s: loaded" % title, False, wh, "%s: the loader does not find the solution of the run: %s %s; file has %s" % (
                    title, e, stopped(I), sorted(show(p) for f in st.files.values() for p in f)))
                continue
            pick = (lambda f: list(I.cells(r.out(f))[k].reshape(-1))) if r.mp["eval_times"] else (lambda f: cells(I, r.out(f)))
            for f in ("xs", "phi", "psi"):
                ctx.equal("%s: %s at %s" % (title, f, t), wh, cells(I, I.getattr_obj(o, f)), pick(f), boundary=False)
            for f, n in (("ws", "ws"), ("mus", "mus")):
                ctx.equal("%s: %s" % (title, f), wh, cells(I, I.getattr_obj(o, f)), cells(I, r.out(n)), boundary=False)
            N, L, M = al["N_spaces"][-1], src["N_angles"][-1], al["Ms"][-1]
            nm = "Y%d" % (len(r.ivp) - 1)
            g = cells(I, I.getattr_obj(o, "coeff_mat"))
            w = [T.sym(nm, T.const(i), T.const(k)) for i in range(L * N * (M + 1))]
            ctx.require("%s: coefficients at time %d" % (title, k), g == w, wh, "%s: the coefficients loaded for time %d of %d are not the solution of that time" % (title, k + 1, len(times)),
                        defect="coefficients_of_final_time" if k + 1 < len(times) else None)
    ctx.rule("fields the loader returns for the settings of a run == fields the run reports")


def waves(ctx):
    """wave points: saver and loader agree on the place (the file name is decided separately)"""
    for p in ("transport", "su_olson", "su_olson_thick", "su_olson_thick_s2", "rad_transfer_constant_cv_thick", "rad_transfer_constant_cv_thick_s2"):
        for k in (2, 5):
            I, st = fresh(ctx)
            names = []
            st.name = lambda I, q: names.append(Store.name(st, I, q)) or "wave"
            s = dict(BASE, problem=p, source=k)
            lst = lambda v: I.arr_of([T.lift(x) for x in v])
            wh = where(I.func("save_output"))
            for tag in "AB":
                n = sizes_of(tag)[0]
                src = [int(q == k) for q in range(6)]
                o = construct(ctx, I, "save_output", dict(tfinal=s["t"], N_spaces=lst([4]), Ms=lst([1]), source_type=lst(src), moving=I.to_val(1), uncollided=I.to_val(1), major=T.lift("cells"),
                                                          thermal_couple=I.to_val({"none": 1}), temp_function=lst([0, 1]), c=s["c"], sigma=T.sym("sg"), x0=I.arr_of([s["x0"]]), cv_const=s["cv"],
                                                          problem_type=T.lift(p), N_angles=lst([2]), epsilon=T.ONE))
                f = dict(tpnts=arr(I, "tp" + tag, n), leftpnts=arr(I, "le" + tag, n), rightpnts=arr(I, "ri" + tag, n), T_wave_points=arr(I, "tw" + tag, n))
                run(ctx, I, I.method(o, "save_wave_loc"), *f.values())
            o = run(ctx, I, I.func("load_sol"), problem_name=T.lift(p), source_name=T.lift(NAMES[k]), rad_or_transfer=T.lift("transfer"), c=s["c"], s2=T.FALSE, cv0=s["cv"])
            title = "wave points %s %s" % (p, NAMES[k])
            try:
                run(ctx, I, I.method(o, "call_wavepoints"), s["t"])
            except Definite as e:
                ctx.require(title, False, wh, "%s: %s %s" % (title, e, stopped(I)))
                continue
            ctx.require(title, not stopped(I), wh, "%s: stops: %s" % (title, stopped(I)))
            for a, b in (("tpnts", "tpnts"), ("left", "leftpnts"), ("right", "rightpnts"), ("T_wave", "T_wave_points")):
                ctx.equal("%s: %s" % (title, a), wh, cells(I, I.getattr_obj(o, a)), list(I.cells(f[b]).reshape(-1)), boundary=False)
            ctx.require("wave points file", len(set(names)) == 1, wh, "wave points are written to one file and read from another: %s" % sorted(set(names)), defect="wavepoints_file")
    ctx.rule("loaded wave points == the ones saved last for that problem, source and time")


def errors(ctx):
    """table of errors: one row per quantity, one table per setting"""
    rows = {"cells": ("N_spaces", "R", "L", "rt", "Ms", "E"), "Ms": ("Ms", "R", "L", "rt", "N_spaces", "E")}
    for major in ("cells", "Ms"):
        for t in (1, 5, 10):
            I, st = fresh(ctx)
            wh = where(I.func("save_output"))
            want = {}
            for unc, mov, tag in ((1, 1, "a"), (0, 1, "b"), (1, 0, "c"), (0, 0, "d"), (1, 1, "e")):
                v = {n: arr(I, n + tag, 3) for n in ("N_spaces", "R", "L", "rt", "E")}
                v["Ms"] = I.arr_of([T.const(2), T.const(3), T.const(4)])
                o = construct(ctx, I, "save_output", dict(tfinal=T.const(t), N_spaces=v["N_spaces"], Ms=v["Ms"], source_type=I.arr_of([T.lift(x) for x in (0, 1, 0, 0, 0, 0)]), moving=I.to_val(mov),
                                                          uncollided=I.to_val(unc), major=T.lift(major), thermal_couple=I.to_val({"none": 1}), temp_function=I.arr_of([T.ZERO]), c=BASE["c"],
                                                          sigma=T.sym("sg"), x0=I.arr_of([BASE["x0"]]), cv_const=BASE["cv"], problem_type=T.lift("transport"), N_angles=v["L"], epsilon=T.ONE))
                run(ctx, I, I.method(o, "save_RMS"), v["R"], v["E"], v["L"], v["rt"])
                want[unc, mov] = [list(I.cells(v[n]).reshape(-1)) for n in rows[major]]
            tables = [[list(x) for x in I.cells(a)] for tr in st.files.values() for a in tr.values() if a is not None]
            title = "errors by %s, t = %d" % (major, t)
            ctx.require("%s: one table per setting" % title, len(tables) == 4 and not stopped(I), wh, "%s: %d tables for four settings %s" % (title, len(tables), stopped(I)))
            for k, w in want.items():
                ctx.require("%s: table of %s" % (title, k), any(all(x is y for r1, r2 in zip(tb, w) for x, y in zip(r1, r2)) for tb in tables if len(tb) == len(w)), wh,
                            "%s: no table holds sizes, errors, angles, run times of setting %s in that order" % (title, k))
    ctx.rule("one table per (uncollided, moving) setting, six rows: sizes, errors, angles, run times, orders, energy errors; the last saving counts")


def default_file(ctx):
    I, st = fresh(ctx)
    wh = where(I.func("load_sol"))
    save(ctx, I, BASE, "A")
    saved = set(st.opened)
    st.opened[:] = []
    try:
        load(ctx, I, BASE, None)
    except Definite:
        pass
    ctx.require("default file", saved <= set(st.opened), wh, "by default the loader opens %s, the saver wrote %s" % (sorted(set(st.opened)), sorted(saved)), defect="default_file")
    ctx.rule("the loader's default file is the saver's")


def check(ctx):
    ctx.section("round trip", round_trip)
    ctx.section("distinct", distinct)
    ctx.section("special sources", special)
    ctx.section("whole", whole)
    ctx.section("wave points", waves)
    ctx.section("errors", errors)
    ctx.section("default file", default_file)
