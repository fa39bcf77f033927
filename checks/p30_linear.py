"""P30  superposition: the solution depends linearly on the source strengths and the initial flux."""
from checks.e2e import *
from checks import crossing
from checks.p29_mirror import Even

LEVEL = "other"
EXPLANATION = ("The value graphs of the initial state, the rate of change and the reported flux of a whole run are compared with themselves under substitution: the "
               "graph at the sum of two states and two sets of source strengths against the sum of the graphs. No formula of the scheme is assumed.")
OP = ("constant", "gaussian", "siewert1", "siewert2", "fake_sedov")


def op(name):
    return dict(sigma_func={k: k == name for k in OP}, Msigma=1)


SPH = dict(geometry="sphere")
SCEN = [
    ("plane pulse", "plane_IC", dict(sizes=((2, 2, 2),)), 1, 1), ("plane pulse, no uncollided", "plane_IC", dict(sizes=((3, 2, 1),)), 0, 0),
    ("square pulse", "square_IC", dict(sizes=((4, 2, 1),)), 1, 1), ("square pulse, no uncollided", "square_IC", dict(sizes=((4, 2, 1),)), 0, 1),
    ("square source", "square_source", dict(sizes=((4, 2, 1),)), 1, 1), ("square source, no uncollided", "square_source", dict(sizes=((4, 2, 0),)), 0, 1),
    ("gaussian pulse", "gaussian_IC", dict(sizes=((2, 2, 1),)), 1, 1), ("gaussian pulse, no uncollided", "gaussian_IC", dict(sizes=((2, 2, 1),)), 0, 0),
    ("gaussian source", "gaussian_source", dict(sizes=((2, 2, 1),)), 0, 1), ("gaussian source, uncollided", "gaussian_source", dict(sizes=((2, 2, 1),)), 1, 0),
    ("gaussian opacity", "plane_IC", dict(sizes=((2, 2, 0),), **op("gaussian")), 0, 1), ("siewert opacity", "plane_IC", dict(sizes=((2, 2, 0),), **op("siewert1")), 0, 1),
    ("time-dependent opacity", "plane_IC", dict(sizes=((2, 2, 0),), **op("fake_sedov")), 0, 0),
    ("left boundary", "plane_IC", dict(sizes=((2, 2, 1),), boundary_source=True, boundary_on=[1, 0]), 0, 0),
    ("right boundary", "plane_IC", dict(sizes=((2, 2, 1),), boundary_on=[0, 1]), 0, 1),
    ("sphere", "plane_IC", dict(sizes=((2, 2, 1),), **SPH), 0, 1), ("sphere square pulse", "square_IC", dict(sizes=((4, 2, 0),), **SPH), 0, 1),
    ("sphere square pulse, uncollided", "square_IC", dict(sizes=((4, 2, 0),), **SPH), 1, 1),
    ("scaled", "plane_IC", dict(epsilon_scaling=True, sizes=((2, 2, 1),)), 1, 1),
]
DATA = ("c_A", "c_bss")


def linear(ctx, wh, key, g, state):
    """g(a + b) == g(a) + g(b) in the state symbols and the source strengths"""
    add, other = {}, {}
    for v in list(state) + [T.sym(n) for n in DATA]:
        a = T.single_atom(v)
        w = T.app("other", v)
        add[a] = v + w
        other[a] = w
    ctx.equal(key, wh, [T.subst(x, add) for x in g], [x + T.subst(x, other) for x in g], boundary=False)


def superpose(ctx, scen):
    title, entry, over, unc, mov = scen
    over = dict(dict(xs_quad=2), **over)
    N, L, M = over["sizes"][0]
    got = {}

    def on(r, d):
        y0 = list(r.I.cells(d["y0"]).reshape(-1))
        u = [T.sym("V", T.const(k)) for k in range(len(y0))]
        y = run(ctx, r.I, d["fun"], T.possym("t"), r.I.arr_of(u))
        got["f"] = list(r.I.cells(y).reshape(-1))
        got["u"], got["y0"] = u, y0
    r = Even(ctx, entry, unc, mov, **over)
    if unc:         # its own obligation below
        r.I.overrides["uncollided_solution.uncollided_solution"] = Builtin("uncollided", lambda I, a, kw: I.ew(lambda x: T.sym("c_A") * T.app("U", x, I.scalar(a[-1])), a[-2]))
    r.on_ivp = on
    r.go()
    if "f" not in got:
        raise Undecided("%s: stops before integrating: %s" % (title, r.raised))
    wh = where(r.f)
    linear(ctx, wh, "%s: initial state" % title, got["y0"], [])
    linear(ctx, wh, "%s: rate of change" % title, got["f"], got["u"])
    if r.raised is None and len(r.ivp) == 1:
        Y = [T.sym("Y0", T.const(k), T.const(0)) for k in range(len(got["u"]))]
        for f in ("phi", "psi", "exit_phi", "exit_dist"):
            linear(ctx, wh, "%s: reported %s" % (title, f), list(r.I.cells(r.out(f)).reshape(-1)), Y)
    ctx.rule("value at the sum of two states and source strengths == sum of the values, for initial state, rate of change and every reported flux")


def uncollided(ctx, name, g, src, over):
    I = ctx.interp()
    P = dict(uncollided=1, source_type=srctype(I, *src), geometry=geom(I, g), source_strength=T.sym("c_A"), boundary_source_strength=T.sym("c_bss"))
    P.update(over)
    b, P = mkbuild(ctx, I, **P)
    u = construct(ctx, I, "uncollided_solution", {"build": b})
    f = I.method(u, "uncollided_solution")
    linear(ctx, where(f), name, list(I.cells(run(ctx, I, f, I.arr_of([T.sym("x") if g == "slab" else T.possym("x")]), T.possym("t")))), [])


UNC = [("plane pulse", "slab", (0,), {}), ("square pulse", "slab", (1,), {}), ("square source", "slab", (2,), {}), ("gaussian pulse", "slab", (3,), {}),
       ("gaussian source", "slab", (5,), {}), ("point pulse", "sphere", (0,), {}), ("shell", "sphere", (1,), {})]


def check(ctx):
    for s in UNC:
        ctx.section("uncollided " + s[0], uncollided, *s)
    for s in SCEN:
        ctx.section(s[0], superpose, s)
    for s in crossing.scenarios(entry=tuple(e for e in crossing.FACTORS["entry"] if e != "MMS"), angles=(2,)):
        ctx.section("crossed: " + s[0], superpose, s)
