"""Wiring of the right-hand side with all its collaborators, shared by the right-hand-side checks."""
from checks.common import *
from checks.p05_slab_matrices import tables, want_G, want_L
from checks.p14_flux import spec, sum_, project_trace
from sa.interp import Builtin


class Wired:
    def __init__(self, ctx, g, N, M, nang, src=(), ustub=True, prefer=None, E=None, D=None, free=None, mus=None, **kw):
        I = self.I = ctx.interp()
        self.N, self.M, self.g, self.nang = N, M, g, nang
        half = [T.possym("m", T.const(k)) for k in range(nang // 2)]
        self.mus = mus or [T.ZERO - m for m in reversed(half)] + half
        kw.setdefault("nq", 1)
        kw.setdefault("nt", 1)
        for k in ("xs_quad", "ws_quad"):
            if k in kw:
                kw[k] = I.arr_of([T.lift(x) for x in kw[k]])
        if "sigma_func" in kw:
            kw["sigma_func"] = opac(I, kw["sigma_func"])
        self.b, self.P = mkbuild(ctx, I, M=M, N_space=N, N_ang=nang, geometry=geom(I, g), source_type=srctype(I, *src), mus=I.arr_of(self.mus), **kw)
        if E is None:
            if g == "sphere":
                E = [T.possym("r0")]
                for k in range(N):
                    E.append(E[-1] + (T.possym("eh", T.const(k)) if free is None or k in free else T.const(1 + k % 3)))
            else:
                E, _ = edges(I, N, free=free)
        self.E = E
        self.D = D or [T.sym("D", T.const(k)) for k in range(N + 1)]
        self.t = T.possym("t")
        self.mesh = I.new_obj({"edges": I.arr_of([T.sym("staleE", T.const(k)) for k in range(N + 1)]),
                               "Dedges": I.arr_of([T.sym("staleD", T.const(k)) for k in range(N + 1)])})

        def move(I, a, kw):
            tt = I.scalar(a[0])
            sb = {T.single_atom(self.t): tt}
            I.setattr_obj(self.mesh, "edges", I.arr_of([T.subst(e, sb) for e in self.E]))
            I.setattr_obj(self.mesh, "Dedges", I.arr_of([T.subst(e, sb) for e in self.D]))
            return None
        I.setattr_obj(self.mesh, "move", Builtin("move", move))
        d = {"build": self.b}
        d.update(tables(I, M))
        self.mat = construct(ctx, I, "G_L", d)
        self.lu = construct(ctx, I, "LU_surf", {"build": self.b})
        self.source = construct(ctx, I, "source_class", {"build": self.b})
        if ustub:
            self.uncol = I.new_obj({"uncollided_solution": Builtin("u", lambda I, a, kw: I.ew(lambda x: T.app("U", x, I.scalar(a[1])), a[0]))})
        else:
            self.uncol = construct(ctx, I, "uncollided_solution", {"build": self.b})
        self.flux = construct(ctx, I, "scalar_flux", {"build": self.b})
        self.transfer = construct(ctx, I, "T_function", {"build": self.b})
        self.sigma = construct(ctx, I, "sigma_integrator", {"build": self.b})
        run(ctx, I, I.method(self.flux, "load_AAA"), I.getattr_obj(self.sigma, "AAA"))
        self.rhs = construct(ctx, I, "rhs_class", {"build": self.b}, prefer=prefer)
        self.f = I.method(self.rhs, "call")
        self.ctx = ctx

    def call(self, V, t=None):
        I = self.I
        r = run(self.ctx, I, self.f, self.t if t is None else t, V, self.mesh, self.mat, self.lu, self.source, self.uncol, self.flux,
                self.transfer, self.sigma)
        return I.cells(r)

    def state(self, name="V"):
        u = self.I.tensor(name, (self.nang, self.N, self.M + 1))
        flat = self.I.arr_of(list(self.I.cells(u).reshape(-1)))
        return flat, self.I.cells(u)

    def weights(self):
        ws = list(self.I.cells(self.P["ws"]))
        s = sum_(ws)
        return [w / s for w in ws]
