"""P24  the rate of change is a function of time and state alone."""
from checks.e2e import *
from checks import crossing

LEVEL = "other"
EXPLANATION = ("The right-hand side a run hands to the integrator is evaluated abstractly at (t1, U), then at (t2, V) on the same objects, and compared with a "
               "first evaluation at (t2, V) in a fresh run; all four are symbols. The state vector given to it must be the same after the call (effect analysis).")
OP = ("constant", "gaussian", "siewert1", "siewert2", "fake_sedov")


def op(name):
    return dict(sigma_func={k: k == name for k in OP}, Msigma=1)


SCEN = [
    ("plane pulse", "plane_IC", dict(sizes=((2, 2, 1),)), 1, 1), ("plane pulse, static", "plane_IC", dict(sizes=((2, 2, 1),)), 0, 0),
    ("square pulse", "square_IC", dict(sizes=((4, 2, 0),)), 1, 1), ("square source", "square_source", dict(sizes=((4, 2, 0),)), 1, 1),
    ("square source, no uncollided", "square_source", dict(sizes=((4, 2, 0),)), 0, 1), ("gaussian pulse", "gaussian_IC", dict(sizes=((2, 2, 0),)), 0, 1),
    ("gaussian source", "gaussian_source", dict(sizes=((2, 2, 0),)), 0, 1), ("manufactured", "MMS", dict(sizes=((2, 2, 1),)), 0, 1),
    ("gaussian opacity", "plane_IC", dict(sizes=((2, 2, 0),), **op("gaussian")), 0, 1), ("siewert opacity", "plane_IC", dict(sizes=((2, 2, 0),), **op("siewert1")), 0, 1),
    ("time-dependent opacity", "plane_IC", dict(sizes=((2, 2, 0),), **op("fake_sedov")), 0, 0),
    ("boundary source", "plane_IC", dict(sizes=((2, 2, 0),), boundary_source=True, boundary_on=[1, 0]), 0, 0),
    ("right boundary", "plane_IC", dict(sizes=((2, 2, 0),), boundary_on=[0, 1]), 0, 1),
    ("sphere", "plane_IC", dict(geometry="sphere", sizes=((2, 2, 1),)), 0, 1), ("sphere square pulse", "square_IC", dict(geometry="sphere", sizes=((4, 2, 0),)), 0, 1),
    ("scaled", "plane_IC", dict(epsilon_scaling=True, sizes=((2, 2, 0),)), 1, 1),
]


def evaluate(ctx, title, entry, over, unc, mov, calls):
    """results of the right-hand side for a sequence of (time, state name)"""
    r = Run(ctx, entry, unc, mov, **over)
    out, kept = [], []

    def on(r, d):
        n = r.I.cells(d["y0"]).size
        f = d["fun"]
        f = getattr(f, "fn_where", None) or f
        for t, nm in calls:
            v = r.I.vec(nm, n)
            before = list(r.I.cells(v).reshape(-1))
            y = run(ctx, r.I, d["fun"], T.possym(t), v)
            out.append(list(r.I.cells(y).reshape(-1)))
            kept.append((before, list(r.I.cells(v).reshape(-1))))
    r.on_ivp = on
    r.go()
    if not r.ivp:
        raise Undecided("%s: stops before integrating: %s" % (title, r.raised))
    return r, out, kept


def pure(ctx, scen):
    title, entry, over, unc, mov = scen
    r, first, kept = evaluate(ctx, title, entry, over, unc, mov, [("t2", "V")])
    wh = where(r.f)
    for b, a in kept:
        ctx.equal("%s: state left as given" % title, wh, a, b, boundary=False)
    again = [[("t1", "U"), ("t2", "V")], [("t2", "U"), ("t2", "V")], [("t2", "V"), ("t2", "V")]]
    if ctx.tier == "thorough":
        again.append([("t2", "V"), ("t1", "U"), ("t2", "V")])
    for calls in again:
        _, out, kept = evaluate(ctx, title, entry, over, unc, mov, calls)
        ctx.equal("%s: after %s" % (title, calls[:-1]), wh, out[-1], first[0], boundary=False)
        for b, a in kept:
            ctx.equal("%s: state left as given" % title, wh, a, b, boundary=False)
        # the arrays returned earlier are not rewritten later
    ctx.rule("rate of change at (t2, V) after other evaluations == first evaluation at (t2, V); the state array is not written")


def numbers(I):
    """every numeric field that holds a plain number: (object, field) -> value"""
    out = {}
    for o in I.created:
        for k, v in I.st.heap[o.id].items():
            if isinstance(v, T.Poly) and T.is_const(v):
                out[(o.id, k)] = (o, T.const_val(v))
    return out


def counted(ctx, scen):
    """induction over the number of evaluations: whatever the counters have come to, the result is that of the first evaluation"""
    title, entry, over, unc, mov = scen
    _, first, _ = evaluate(ctx, title, entry, over, unc, mov, [("t2", "V")])
    r = Run(ctx, entry, unc, mov, **over)
    got, names = [], []

    def on(r, d):
        I = r.I
        n = I.cells(d["y0"]).size
        seen = [numbers(I)]
        for t in ("t1", "t3"):
            run(ctx, I, d["fun"], T.possym(t), I.vec("U" + t, n))
            seen.append(numbers(I))
        for k in seen[0]:
            if all(k in s for s in seen) and len({s[k][1] for s in seen}) == 3:
                o, _ = seen[2][k]
                c = T.isym("count %s" % k[1])
                I.assume(T.le(T.const(seen[2][k][1]), c))
                I.setattr_obj(o, k[1], c)
                names.append("%s.%s" % (o.cls.name if o.cls else "", k[1]))
        y = run(ctx, I, d["fun"], T.possym("t2"), I.vec("V", n))
        got.extend(I.cells(y).reshape(-1))
    r.on_ivp = on
    r.go()
    if not r.ivp:
        raise Undecided("%s: stops before integrating: %s" % (title, r.raised))
    ctx.equal("%s: any number of earlier evaluations" % title, where(r.f), got, first[0], boundary=False)
    ctx.rule("rate of change with every counter (%s) at an arbitrary number == first evaluation" % ", ".join(names))


def check(ctx):
    quad = lambda s: s[:2] + (dict(s[2], xs_quad=2),) + s[3:]
    for s in crossing.scenarios(geometry=("slab",), angles=(2,), order=(0,), cells=(2,), entry=("plane_IC", "gaussian_IC", "gaussian_source")):
        ctx.section("counters, crossed: " + s[0], counted, quad(s))
    for s in crossing.scenarios(geometry=("slab",), angles=(2,), order=(0,)):
        ctx.section("crossed: " + s[0], pure, quad(s))
    for s in SCEN[:1] + SCEN[3:4] + SCEN[13:14]:
        ctx.section("counters: " + s[0], counted, s)
    for s in SCEN:
        ctx.section(s[0], pure, s)
