"""A whole run from the user's entry point to the reported fields, with the integrator, the quadratures and the files kept symbolic."""
from checks.common import *
from checks.p06_sphere_matrices import files, h5ext
from sa.interp import Builtin, const_str, PyList, PyDict, Obj

ENTRIES = {"plane_IC": 0, "square_IC": 1, "square_source": 2, "gaussian_IC": 3, "MMS": 4, "gaussian_source": 5}


def srcarr(name, n=6):
    v = [0] * n
    if name in ENTRIES:
        v[ENTRIES[name]] = 1
    return v


def config(name, sizes=((4, 2, 1),), geometry="slab", **over):
    """configuration with a symbol for every real number. sizes: (cells, angles, order) per run"""
    al = dict(tfinal=T.possym("tfinal"), N_spaces=[s[0] for s in sizes], Ms=[s[2] for s in sizes], N_runs=1, tnodes=2, c_scaling=False,
              rt=T.sym("c_rt"), at=T.sym("c_at"), t0=T.possym("t0"), major="cells", radiative_transfer={"none": True, "rad_transfer": False, "const_cv": False},
              temperature_dependence=[0, 1], e_initial=T.sym("c_e"), weights="gauss_legendre", particle_v="one", edge_v="one", cv_const=T.possym("c_cv"),
              problem_name="transport", sigma_t=T.possym("c_sigt"), sigma_s=T.sym("c_sigs"), integrator="DOP853", epsilon=T.sym("c_eps"),
              geometry={"slab": geometry == "slab", "sphere": geometry == "sphere"}, thick=False, mxstp=T.sym("c_mx"), save_solution=False,
              epsilon_scaling=False, estimate_wavespeed=False)
    src = dict(N_angles=[s[1] for s in sizes], source_type=srcarr(name), source_strength=T.sym("c_A"),
               x0=[T.possym("c_x0")] * len(sizes), move_type=[1, 0, 0, 0], benchmarking=False, l=T.possym("c_l"), sigma=T.possym("c_sigma"), bench_type="full")
    mp = dict(find_edges_tol=T.sym("c_fet"), sqrt_t_move_factor=T.sym("c_mf"), save_wave_loc=False, find_wave_loc=False, estimate_wavespeed=False,
              choose_xs=False, xs_list=[T.sym("c_xs0"), T.sym("c_xs1")], pad=T.sym("c_pad"), leader_pad=T.sym("c_lpad"), xs_quad=25, eval_times=False,
              eval_array=[T.possym("c_t1"), T.possym("c_t2")], boundary_on=[0, 0], boundary_source=False, boundary_source_strength=T.sym("c_bss"),
              boundary_source_loc=[10, 0],
              sigma_func={"constant": True, "linear": False, "siewert1": False, "siewert2": False, "gaussian": False, "fake_sedov": False, "f_sedov": False},
              Msigma=1, finite=False, domain_width=T.possym("c_dw"), fake_sedov_v0=T.sym("c_v0"))
    for k, v in over.items():
        hit = 0
        for d in (al, src, mp):
            if k in d:
                d[k] = v
                hit += 1
        assert hit, k
    return {"all": al, name: src}, mp


def quad_tokens(I, log):
    """quadrature(n, name): symbolic, named by rule and order; ordinates symmetric and increasing"""
    def q(I, a, kw):
        n = T.const_val(I.scalar(a[0]))
        nm = const_str(I.scalar(a[1]))
        n = int(n)
        log.append((nm, n))
        if "testing" in kw or len(a) > 2:
            half = [T.possym("mu_%s" % nm, T.const(n), T.const(k)) for k in range(n // 2)]
            pts = [T.ZERO - m for m in reversed(half)] + ([T.ZERO] if n % 2 else []) + half
        else:
            pts = [T.sym("x_%s" % nm, T.const(n), T.const(k)) for k in range(n)]
        ws = [T.possym("w_%s" % nm, T.const(n), T.const(k)) for k in range(n)]
        return (I.arr_of(pts), I.arr_of(ws))
    return Builtin("quadrature", q)


class Run:
    """run().<entry>(uncollided, moving) with the given configuration"""

    def __init__(self, ctx, entry, uncollided=True, moving=True, section=None, cfg=None, **over):
        self.ctx, self.entry = ctx, entry
        I = self.I = ctx.interp()
        self.cfg, self.mp = cfg if cfg else config(section or entry, **over)
        self.qlog, self.ivp, self.opened = [], [], []
        I.overrides["quadrature"] = quad_tokens(I, self.qlog)
        h5ext(I, files(I, 3), self.opened)
        I.ext["scipy.integrate.solve_ivp"] = self.solve_ivp
        clock = iter(range(1, 1000))
        I.ext["timeit.default_timer"] = lambda I, a, kw: T.sym("clock", T.const(next(clock)))
        self.on_ivp = self.value = None
        self.base = 0
        rc = I.func("run")
        self.r = run(ctx, I, rc)
        I.setattr_obj(self.r, "parameters", I.to_val(self.cfg))
        I.setattr_obj(self.r, "mesh_parameters", I.to_val(self.mp))
        self.f = I.method(self.r, entry)
        self.args = [int(uncollided), int(moving)]
        self.raised = None

    def go(self):
        try:
            run(self.ctx, self.I, self.f, *[T.TRUE if a else T.FALSE for a in self.args])
        except Definite as e:
            self.raised = e
        except Undecided:
            # the run stops here on every path: it is known how it ends
            sure = [q for q in self.I.raises if q[0] is T.TRUE]
            if not sure:
                raise
            self.raised = Definite("%s at %s" % (sure[-1][1], loc(sure[-1][2])))
        return self

    def solve_ivp(self, I, a, kw):
        names = ["fun", "t_span", "y0", "method", "t_eval", "dense_output", "events", "vectorized", "args"]
        d = dict(zip(names, a))
        d.update(kw)
        n = len(self.ivp)
        d["created"] = list(I.created)
        d["heap"] = {o.id: dict(I.st.heap[o.id]) for o in I.created}
        self.ivp.append(d)
        if self.on_ivp:
            self.on_ivp(self, d)
        y0 = I.cells(d["y0"])
        te = d.get("t_eval")
        ts = cells(I, te) if te is not None else [T.sym("tsol", T.const(0)), cells(I, d["t_span"])[1]]
        self.columns = len(ts)
        Y = onp.empty((y0.size, len(ts)), dtype=object)
        for ix in onp.ndindex(*Y.shape):
            Y[ix] = T.sym("Y%d" % (n - self.base), T.const(ix[0]), T.const(ix[1])) if self.value is None else self.value(n - self.base, *ix)
        return I.new_obj({"y": I.arr_of(Y), "t": I.arr_of(ts)})

    def out(self, name):
        return self.I.getattr_obj(self.r, name)
