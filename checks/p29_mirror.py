"""P29  mirror-symmetric slab problems: mesh, initial state, rate of change and reported flux commute with the reflection x -> -x."""
from checks.e2e import *
from checks import mesh_common
from checks import crossing

LEVEL = "other"
EXPLANATION = ("Two abstract evaluations of the code of a whole run, one on an arbitrary state and one on its mirror image, are compared with each other: the rate "
               "of change handed to the integrator, the initial state and the output evaluation. No formula of the scheme is assumed.")
OP = ("constant", "gaussian", "siewert1", "siewert2", "fake_sedov")


def op(name):
    return dict(sigma_func={k: k == name for k in OP}, Msigma=1)


SCEN = [
    ("plane pulse", "plane_IC", dict(sizes=((2, 2, 2),)), 1, 1), ("plane pulse, static", "plane_IC", dict(sizes=((3, 2, 1),)), 0, 0),
    ("four angles", "plane_IC", dict(sizes=((2, 4, 1),)), 0, 1), ("four cells", "plane_IC", dict(sizes=((4, 2, 1),)), 1, 1),
    ("square pulse", "square_IC", dict(sizes=((4, 2, 1),)), 1, 1), ("square source", "square_source", dict(sizes=((4, 2, 1),)), 1, 1),
    ("square source, no uncollided", "square_source", dict(sizes=((4, 2, 0),)), 0, 1), ("square source, static", "square_source", dict(sizes=((4, 2, 0),)), 0, 0),
    ("gaussian pulse", "gaussian_IC", dict(sizes=((2, 2, 1),)), 1, 1), ("gaussian pulse, no uncollided", "gaussian_IC", dict(sizes=((3, 2, 1),)), 0, 1),
    ("gaussian source", "gaussian_source", dict(sizes=((2, 2, 1),)), 0, 1), ("gaussian source, uncollided", "gaussian_source", dict(sizes=((2, 2, 1),)), 1, 0),
    ("manufactured", "MMS", dict(sizes=((2, 2, 1),)), 0, 1), ("gaussian opacity", "plane_IC", dict(sizes=((2, 2, 0),), **op("gaussian")), 0, 1),
    ("both boundaries", "plane_IC", dict(sizes=((2, 2, 1),), boundary_on=[1, 1]), 0, 0),
    ("scaled", "plane_IC", dict(epsilon_scaling=True, sizes=((2, 2, 1),)), 1, 1),
]


def even_quadrature(I, log):
    """every rule symmetric about zero, in its ordinates and its weights"""
    def q(I, a, kw):
        n = int(T.const_val(I.scalar(a[0])))
        nm = const_str(I.scalar(a[1]))
        half = [T.possym("mu_%s" % nm, T.const(n), T.const(k)) for k in range(n // 2)]
        wh = [T.possym("w_%s" % nm, T.const(n), T.const(k)) for k in range(n // 2)]
        mid = n % 2
        if nm == "gauss_lobatto" and half:
            half[-1] = T.ONE
        return (I.arr_of([T.ZERO - m for m in reversed(half)] + [T.ZERO] * mid + half),
                I.arr_of(list(reversed(wh)) + [T.possym("w_%s" % nm, T.const(n), T.const(n // 2))] * mid + wh))
    return Builtin("quadrature", q)


def mirror(u):
    """[angle, cell, order] -> mirror image"""
    r = u[::-1, ::-1, :].copy()
    for j in range(1, u.shape[2], 2):
        r[:, :, j] = -r[:, :, j]
    return r


class Even(Run):
    def __init__(self, ctx, entry, unc, mov, **over):
        Run.__init__(self, ctx, entry, unc, mov, **over)
        self.I.overrides["quadrature"] = even_quadrature(self.I, self.qlog)
        self.mir = False

    def solve_ivp(self, I, a, kw):
        o = Run.solve_ivp(self, I, a, kw)
        if self.mir:
            N, L, M = self.cfg["all"]["N_spaces"][0], list(self.cfg.values())[1]["N_angles"][0], self.cfg["all"]["Ms"][0]
            Y = I.cells(I.getattr_obj(o, "y"))
            for c in range(Y.shape[1]):
                Y[:, c] = mirror(Y[:, c].reshape(L, N, M + 1)).reshape(-1)
            I.setattr_obj(o, "y", I.arr_of(Y))
        return o


def symmetric(ctx, scen):
    title, entry, over, unc, mov = scen
    over = dict(dict(choose_xs=True, xs_quad=2), **over)
    N, L, M = over["sizes"][0]
    x = T.possym("x")
    over.setdefault("xs_list", [T.ZERO - x, x])
    got = {}

    def on(r, d):
        u = onp.empty((L, N, M + 1), dtype=object)
        for ix in onp.ndindex(L, N, M + 1):
            u[ix] = T.sym("V", *[T.const(k) for k in ix])
        t = T.possym("t")
        y0 = onp.array(list(r.I.cells(d["y0"]).reshape(-1)), dtype=object)
        got["y0"] = y0.reshape(L, N, M + 1)
        got["u"] = u
        for nm, v in (("f", u), ("g", mirror(u))):
            y = run(ctx, r.I, d["fun"], t, r.I.arr_of(list(v.reshape(-1))))
            got[nm] = onp.array(list(r.I.cells(y).reshape(-1)), dtype=object).reshape(L, N, M + 1)
        got["t"] = t
    r = Even(ctx, entry, unc, mov, **over)
    stub(r, unc)
    r.on_ivp = on
    r.go()
    if "f" not in got:
        raise Undecided("%s: stops before integrating: %s" % (title, r.raised))
    wh = where(r.f)
    ctx.equal("%s: initial state" % title, wh, got["y0"].reshape(-1), mirror(got["y0"]).reshape(-1), boundary=False)
    ctx.equal("%s: rate of change" % title, wh, got["g"].reshape(-1), mirror(got["f"]).reshape(-1), boundary=False)
    ctx.rule("rate of change at the mirrored state == mirrored rate of change; initial state == its mirror image")


OUT = [("plane pulse", "plane_IC", dict(sizes=((2, 2, 1),)), 1, 1), ("two cells, no uncollided", "plane_IC", dict(sizes=((2, 4, 1),)), 0, 0),
       ("square source", "square_source", dict(sizes=((4, 2, 0),)), 1, 1), ("node positions", "plane_IC", dict(sizes=((2, 2, 1),), choose_xs=False), 0, 1),
       ("several times", "plane_IC", dict(sizes=((2, 2, 1),), eval_times=True), 1, 1)]


def output(ctx, title, entry, over, unc, mov):
    over = dict(dict(choose_xs=True, xs_quad=2), **over)
    x = T.possym("x")
    over.setdefault("xs_list", [T.ZERO - x, x])
    res = []
    for m in (False, True):
        r = Even(ctx, entry, unc, mov, **over)
        r.mir = m
        stub(r, unc)
        r.go()
        if r.raised is not None or len(r.ivp) != 1:
            raise Undecided("%s: stops: %s" % (title, r.raised))
        res.append((r.I.cells(r.out("xs")), r.I.cells(r.out("phi")), r.I.cells(r.out("exit_phi"))))
    wh = where(r.f)
    (xa, pa, ea), (xb, pb, eb) = res
    ctx.equal("%s: positions" % title, wh, [T.ZERO - v for v in xa[..., ::-1].reshape(-1)], list(xb.reshape(-1)), boundary=False)
    ctx.equal("%s: flux" % title, wh, list(pb.reshape(-1)), list(pa[..., ::-1].reshape(-1)), boundary=False)
    ctx.equal("%s: leaving flux" % title, wh, list(eb.reshape(-1)), list(ea[..., ::-1].reshape(-1)), boundary=False)
    ctx.rule("reported flux of the mirrored solution == reported flux read from right to left")


def stub(r, unc):
    if unc:         # its evenness is an obligation of its own
        r.I.overrides["uncollided_solution.uncollided_solution"] = Builtin("uncollided", lambda I, a, kw: I.ew(lambda x: T.app("U", T.abs_(x), I.scalar(a[-1])), a[-2]))


def even(ctx, name, src, over):
    I = ctx.interp()
    P = dict(uncollided=1, source_type=srctype(I, *src), geometry=geom(I, "slab"))
    P.update(over)
    b, P = mkbuild(ctx, I, **P)
    u = construct(ctx, I, "uncollided_solution", {"build": b})
    f = I.method(u, "uncollided_solution")
    x, t = T.sym("x"), T.possym("t")
    a, b = [run(ctx, I, f, I.arr_of([v]), t) for v in (x, T.ZERO - x)]
    ctx.equal("%s is even" % name, where(f), list(I.cells(b)), list(I.cells(a)), boundary=False)
    ctx.rule("uncollided flux at -x == uncollided flux at x")


EVEN = [("plane pulse", (0,), {}), ("square pulse", (1,), {}), ("square source", (2,), {}), ("gaussian pulse", (3,), {}), ("gaussian source", (5,), {})]


def meshes(ctx):
    """meshes of more cells than the whole runs have"""
    for cfg in mesh_common.CONFIGS:
        if cfg[1] != "slab" or cfg[0] in ("dipole", "boundary source"):
            continue
        for N in (4, 8, 12, 16, 36) if "thick" not in cfg[0] or ctx.thorough else (8, 36):
            for mv in (1, 0):
                t = T.possym("t")
                m = mesh_common.Mesh(ctx, *cfg, N=N, moving=mv)
                m.move(t)
                facts = [m.big]
                if "square-root" in cfg[0]:
                    facts.append(T.lt(T.lift(1e-9), t))
                for nm, v, sg in (("edges", m.edges, -1), ("velocities", m.D, -1)):
                    ctx.equal("%s N=%d moving=%d: %s" % (cfg[0], N, mv, nm), where(m.f), v, [T.ZERO - x for x in reversed(v)], facts=facts, boundary=False)
    ctx.rule("edge k == -(edge N-k), and the same for the velocities, after a move to a symbolic time, for every slab mesh of a symmetric problem")


def check(ctx):
    ctx.section("meshes", meshes)
    for s in EVEN:
        ctx.section("uncollided " + s[0], even, *s)
    for s in SCEN:
        ctx.section(s[0], symmetric, s)
    both = dict(geometry=("slab",), bounds=("none", "both"), opacity=("constant", "gaussian"))
    for s in crossing.scenarios(**both):
        ctx.section("crossed: " + s[0], symmetric, s)
    for s in crossing.scenarios(several=(0, 1), order=(0,), **both):
        ctx.section("output, crossed: " + s[0], output, *s)
    for s in OUT:
        ctx.section("output: " + s[0], output, *s)
