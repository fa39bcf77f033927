"""P25  a run does not depend on the runs made before it."""
from checks.e2e import *
from checks.p21_config import capture, leaves
import sa.compare as C

LEVEL = "other"
EXPLANATION = ("A run is made on the same objects after another run (other problem, other switches, the same one twice, or other times), with the loaded configuration "
               "left in place; components, integrator arguments and every reported field are compared with those of the same run made first. "
               "The loaded configuration itself must be unchanged afterwards (effect analysis).")
FIELDS = ("xs", "phi", "psi", "exit_dist", "exit_phi", "ws", "mus", "e", "x0", "tfinal", "t0_source", "v0", "eval_array")


def both(entries, **over):
    """one configuration with the sections of all the entries"""
    al, mp, secs = None, None, {}
    for e in entries:
        cfg, m = config(e, **over)
        al, mp = al or cfg["all"], mp or m
        secs[e] = cfg[e]
    return dict({"all": al}, **secs), mp


SEQ = [
    ("pulse after source", [("square_source", 1, 1)], ("plane_IC", 1, 1), {}), ("source after pulse", [("plane_IC", 1, 1)], ("square_source", 1, 1), {}),
    ("same twice", [("plane_IC", 1, 1)], ("plane_IC", 1, 1), {}), ("gaussian twice", [("gaussian_IC", 1, 1)], ("gaussian_IC", 1, 1), {}),
    ("other switches", [("square_IC", 1, 1)], ("square_IC", 0, 0), {}), ("other switches back", [("square_source", 0, 0)], ("square_source", 1, 1), {}),
    ("manufactured after gaussian", [("gaussian_source", 1, 1)], ("MMS", 0, 1), {}), ("several times", [("plane_IC", 1, 1)], ("square_IC", 1, 1), dict(eval_times=True)),
    ("finite domain", [("square_source", 1, 1)], ("square_source", 1, 1), dict(finite=True)), ("two earlier", [("plane_IC", 0, 1), ("MMS", 0, 1)], ("gaussian_IC", 1, 1), {}),
    ("several sizes", [("plane_IC", 1, 1)], ("square_IC", 1, 1), dict(sizes=((4, 4, 0), (4, 2, 1)))),
    ("sphere", [("square_IC", 1, 1)], ("plane_IC", 0, 1), dict(geometry="sphere")),
]


def last(ctx, entries, seq, over):
    cfg, mp = both(entries, **over)
    r = Run(ctx, seq[0][0], cfg=(cfg, mp))
    before = image(r)
    n0 = 0
    for k, (e, unc, mov) in enumerate(seq):
        n0 = len(r.ivp)
        r.f = r.I.method(r.r, e)
        r.args = [unc, mov]
        r.on_ivp = capture if k == len(seq) - 1 else None
        # the symbols of the solution belong to the run, not to its place in the sequence
        r.base = n0
        r.go()
        if r.raised is not None:
            raise Undecided("%s does not finish: %s" % (e, r.raised))
    fields = {f: cells(r.I, r.out(f)) for f in FIELDS}
    ivp = r.ivp[n0:]
    return r, fields, ivp, before, image(r)


def renamed(x):
    """the same configuration with other numbers"""
    if isinstance(x, dict):
        return {k: renamed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [renamed(v) for v in x]
    if isinstance(x, T.V):
        a = T.single_atom(x) if T.is_single_atom(x) else None
        if a is None or a.op != "sym":
            return x
        return (T.possym if T.atom_sign(a) else T.sym)("o_" + a.args[0], *a.args[1:])
    return x


RELOAD = [
    ("other output times", [("plane_IC", 1, 1, dict(eval_times=True))], ("plane_IC", 1, 1, {})),
    ("other times, both several", [("plane_IC", 0, 1, dict(eval_times=True))], ("plane_IC", 0, 1, dict(eval_times=True))),
    ("other sizes", [("plane_IC", 0, 1, dict(sizes=((4, 4, 2),)))], ("gaussian_IC", 0, 1, dict(sizes=((2, 2, 1),)))),
    ("other geometry", [("plane_IC", 0, 1, dict(geometry="sphere"))], ("plane_IC", 1, 1, {})),
    ("slab before sphere", [("square_IC", 1, 1, {})], ("square_IC", 1, 1, dict(geometry="sphere"))),
    ("other opacity", [("plane_IC", 0, 1, dict(sigma_func={"constant": False, "gaussian": True}))], ("plane_IC", 0, 1, {})),
    ("other boundaries", [("plane_IC", 0, 0, dict(boundary_on=[1, 1], boundary_source=True))], ("plane_IC", 0, 0, {})),
    ("scaled before", [("gaussian_IC", 1, 1, dict(epsilon_scaling=True))], ("gaussian_IC", 1, 1, {})),
    ("chosen positions before", [("plane_IC", 1, 1, dict(choose_xs=True))], ("square_source", 1, 1, {})),
    ("all kinds", [("square_source", 1, 0, dict(eval_times=True, choose_xs=True)), ("MMS", 0, 1, dict(sizes=((2, 4, 2),)))], ("gaussian_source", 1, 1, {})),
]


def loader(ctx, r, configs):
    """run().load with the input files replaced: every input file holds its configuration"""
    I = r.I
    made = {}

    def opened(I, a, kw):
        return I.new_obj({"name": a[0] if isinstance(a[0], T.V) else I.scalar(a[0]), "close": Builtin("close", lambda I, a, kw: T.NONE)})

    def loaded(I, a, kw):
        nm = const_str(I.getattr_obj(a[0], "name"))
        if nm is None:
            raise Undecided("symbolic name of an input file")
        base = nm.split("/")[-1]
        return I.to_val(made["mesh"] if base == "mesh_parameters.yaml" else made[base])

    def load(k):
        made.clear()
        made["problem%d.yaml" % k], made["mesh"] = configs[k]
        run(ctx, I, I.method(r.r, "load"), T.lift("problem%d" % k))
    I.overrides["open"] = Builtin("open", opened)
    for n in ("safe_load", "full_load", "load"):
        I.ext["yaml." + n] = loaded
    return load


def reloaded(ctx, s):
    title, earlier, own = s

    def go(seq):
        cfgs = []
        for k, (e, unc, mov, over) in enumerate(seq):
            c = config(e, **over)
            cfgs.append(c if k == len(seq) - 1 else (renamed(c[0]), renamed(c[1])))
        r = Run(ctx, seq[0][0], cfg=cfgs[0])
        load = loader(ctx, r, cfgs)
        for k, (e, unc, mov, over) in enumerate(seq):
            load(k)
            r.base = len(r.ivp)
            r.f = r.I.method(r.r, e)
            r.args = [unc, mov]
            r.on_ivp = capture if k == len(seq) - 1 else None
            r.go()
            if r.raised is not None:
                raise Undecided("%s does not finish: %s" % (e, r.raised))
        return r, {f: cells(r.I, r.out(f)) for f in FIELDS}, r.ivp[r.base:]
    r1, want, ivp1 = go([own])
    r2, got, ivp2 = go(earlier + [own])
    compare(ctx, title, r1, r2, want, got, ivp1, ivp2)
    ctx.rule("after loading and running another configuration on the same object, a configuration loaded next gives what it gives when loaded first")


def image(r):
    out = []
    for nm in ("parameters", "mesh_parameters"):
        def walk(v, path):
            if isinstance(v, PyDict):
                for k, x in sorted(r.I.st.heap[v.id].items(), key=lambda z: str(z[0])):
                    walk(x, path + (str(k),))
            elif isinstance(v, (PyList, tuple)):
                for i, x in enumerate(r.I.iterate(v)):
                    walk(x, path + (i,))
            elif isinstance(v, Arr):
                for i, x in enumerate(r.I.cells(v).reshape(-1)):
                    out.append((path + (i,), x))
            else:
                out.append((path, r.I.scalar(v)))
        walk(r.I.getattr_obj(r.r, nm), (nm,))
    return out


def compare(ctx, title, r1, r2, want, got, ivp1, ivp2):
    wh = where(r2.f)
    for f in FIELDS:
        ctx.equal("%s: %s" % (title, f), wh, got[f], want[f], boundary=False)
    ctx.require("%s: integrations" % title, len(ivp1) == len(ivp2), wh, "%d integrations instead of %d" % (len(ivp2), len(ivp1)))
    for d1, d2 in zip(ivp1, ivp2):
        for k in sorted(set(d1) | set(d2)):
            if k in ("fun", "created", "heap", "image", "y0v"):
                continue
            x = [cells(r.I, d[k]) if k in d and d[k] is not None and not isinstance(d[k], bool) else [T.lift("none")] for r, d in ((r1, d1), (r2, d2))]
            ctx.equal("%s: integrator %s" % (title, k), wh, x[1], x[0], boundary=False)
        for n, ims in d1["image"].items():
            other = d2["image"].get(n, [])
            w, g = ims[-1], other[-1] if other else {}
            bad = [a for a in sorted(w) if a not in g or len(leaves(w[a])) != len(leaves(g[a])) or
                   any(C.mismatches(x, y, (), False, limit=1) for x, y in zip(leaves(g[a]), leaves(w[a])))]
            ctx.require("%s: component %s" % (title, n), not bad, wh, "%s: field %s of %s depends on the earlier runs" % (title, bad[:3], n))


def isolated(ctx, s):
    title, earlier, own, over = s
    entries = []
    for e, _, _ in earlier + [own]:
        if e not in entries:
            entries.append(e)
    r1, want, ivp1, b1, a1 = last(ctx, entries, [own], over)
    r2, got, ivp2, b2, a2 = last(ctx, entries, earlier + [own], over)
    wh = where(r2.f)
    compare(ctx, title, r1, r2, want, got, ivp1, ivp2)
    for t, b, a, r in ((title + " (alone)", b1, a1, r1), (title, b2, a2, r2)):
        ctx.require("%s: configuration has the same entries" % t, [p for p, _ in b] == [p for p, _ in a], wh, "entries of the loaded configuration were added or removed")
        if [p for p, _ in b] == [p for p, _ in a]:
            ctx.equal("%s: configuration unchanged" % t, wh, [x for _, x in a], [x for _, x in b], boundary=False)
    ctx.rule("fields, integrator arguments and components of a run after other runs == those of the same run made first; loaded configuration unchanged")


def all_switches(ctx, entry, over):
    """the run-everything switch makes the four runs it stands for"""
    cfg, mp = config(entry, **over)
    r = Run(ctx, entry, cfg=(cfg, mp))
    r.args = [0, 0, 1]
    r.on_ivp = capture
    r.go()
    combos = [(1, 1), (0, 1), (1, 0), (0, 0)]
    wh = where(r.f)
    if not ctx.require("%s: all switches: four runs" % entry, len(r.ivp) == 4, wh, "%d integrations instead of 4: %s" % (len(r.ivp), r.raised)):
        return
    prev = {}
    for k, (unc, mov) in enumerate(combos):
        q = Run(ctx, entry, unc, mov, cfg=config(entry, **over))
        q.on_ivp = capture
        q.go()
        title = "%s: all switches: run %d" % (entry, k + 1)
        ctx.equal("%s: initial state" % title, wh, r.ivp[k]["y0v"], q.ivp[0]["y0v"], boundary=False)
        for n, ims in q.ivp[0]["image"].items():
            g, w = r.ivp[k]["image"].get(n, [{}])[-1], ims[-1]
            bad = [a for a in sorted(w) if a not in g or len(leaves(w[a])) != len(leaves(g[a])) or
                   any(C.mismatches(x, y, (), False, limit=1) for x, y in zip(leaves(g[a]), leaves(w[a])))]
            ctx.require("%s: component %s" % (title, n), not bad, wh, "%s: field %s of %s is not that of the single run" % (title, bad[:3], n))
    ctx.rule("run-everything switch == the four single runs (uncollided on/off x moving on/off), component by component")


def check(ctx):
    for e, o in (("plane_IC", {}), ("square_IC", {}), ("gaussian_IC", {}), ("square_source", dict(eval_times=True)), ("gaussian_source", {}), ("MMS", {})):
        ctx.section("all %s" % e, all_switches, e, o)
    for s in SEQ:
        ctx.section(s[0], isolated, s)
    for s in RELOAD:
        ctx.section("loaded next: " + s[0], reloaded, s)
