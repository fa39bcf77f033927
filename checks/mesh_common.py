"""Mesh configurations shared by the mesh checks."""
from checks.common import *

QUAD = {2: [-1, 0, 1], 4: [-1, 0, 1], 8: [-1, Fr(-1, 2), 0, Fr(1, 2), 1], 12: [-1, Fr(-3, 4), Fr(-1, 4), 0, Fr(1, 4), Fr(3, 4), 1],
        16: [-1, Fr(-7, 8), Fr(-3, 4), Fr(-1, 4), 0, Fr(1, 4), Fr(3, 4), Fr(7, 8), 1]}
EDGE = {2: [-1, 1], 4: [-1, 1], 8: [-1, 0, 1], 12: [-1, Fr(-1, 2), Fr(1, 2), 1], 16: [-1, Fr(-5, 8), 0, Fr(5, 8), 1]}



def spread(n):
    """n + 1 points of [-1, 1], symmetric and unevenly spaced"""
    return [(x + x ** 3) / 2 for x in (Fr(2 * k - n, n) for k in range(n + 1))]


QUAD[36], EDGE[36] = spread(18), spread(9)
# name, geometry, source types on, extra parameters
CONFIGS = [
    ("plane pulse", "slab", (0,), {}),
    ("thick plane pulse", "slab", (0,), {"thick": 1}),
    ("point pulse", "sphere", (0,), {}),
    ("dipole", "slab", (), {"source_extra": {0: 2}}),
    ("square pulse", "slab", (1,), {}),
    ("shell", "sphere", (1,), {}),
    ("square source", "slab", (2,), {}),
    ("gaussian pulse", "slab", (3,), {}),
    ("thick gaussian pulse", "slab", (3,), {"thick": 1}),
    ("manufactured", "slab", (4,), {}),
    ("gaussian source", "slab", (5,), {}),
    ("boundary source", "slab", (), {}),
    ("thick square pulse", "slab", (1,), {"thick": 1}),
    ("square source, stretched to the pad", "slab", (2,), {"finite_domain": 1}),
    ("square source, square-root motion", "slab", (2,), {"finite_domain": 1, "thick": 1, "move_type": [0, 0, 1, 0]}),
]


class Mesh:
    def __init__(self, ctx, name, g, src, extra, N=8, moving=1, **kw):
        extra = dict(extra)
        ex = extra.pop("source_extra", None)
        extra.update(kw)
        x0, w = T.possym("x0"), T.possym("width")
        self.big = T.lt(x0 + 1, w / 2)
        I = self.I = ctx.interp(facts=ctx._lits([self.big]))
        if "move_type" in extra:
            extra["move_type"] = I.to_val(extra["move_type"])
        if "wave_loc_array" in extra:
            extra["wave_loc_array"] = I.arr_of(onp.array([[[T.const(x) for x in r] for r in extra["wave_loc_array"]]], dtype=object))
        P = self.P = params(I, N_space=N, geometry=geom(I, g), source_type=srctype(I, *src, extra=ex), moving=moving,
                            quad_thick_source=I.arr_of([T.const(Fr(v)) for v in QUAD[N]]), quad_thick_edge=I.arr_of([T.const(Fr(v)) for v in EDGE[N]]), **extra)
        d = dict(P)
        d.update(thick_quad=P["quad_thick_source"], thick_quad_edge=P["quad_thick_edge"], fake_sedov_v=P["fake_sedov_v0"])
        # positional parameters are taken by name; alternative names for the same quantity
        self.m = construct(ctx, I, "mesh_class", d)
        self.f = I.method(self.m, "move")
        self.ctx, self.N = ctx, N

    def move(self, t):
        run(self.ctx, self.I, self.f, t)
        return self

    @property
    def edges(self):
        return list(self.I.cells(self.I.getattr_obj(self.m, "edges")))

    @property
    def D(self):
        return list(self.I.cells(self.I.getattr_obj(self.m, "Dedges")))


# times at which the tabulated wave is given and its positions
WAVE_T = [0, 1, 2, 4]
WAVES = [[Fr(3, 5), 1, Fr(7, 5), Fr(3, 2)], [Fr(2, 5), 1, Fr(8, 5), 2]]


def wave_mesh(ctx, N, wave, half=Fr(1, 2)):
    """a mesh that follows a tabulated wave, in numbers"""
    z = [half] * len(WAVE_T)
    c = T.const
    return Mesh(ctx, "wave", "slab", (2,), {"finite_domain": 1, "thick": 1, "move_type": [0, 1, 0, 0], "x0": c(half), "pad": c(Fr(1, 10)), "leader_pad": c(Fr(1, 5)),
                                            "wave_loc_array": [WAVE_T, z, z, wave], "domain_width": c(100), "t0": c(5), "tfinal": c(6), "edge_v": c(1)}, N=N)


def wave_at(wave, t):
    """position and speed of the tabulated wave inside the table"""
    k = max(i for i in range(len(WAVE_T) - 1) if WAVE_T[i] <= t)
    v = Fr(wave[k + 1] - wave[k]) / (WAVE_T[k + 1] - WAVE_T[k])
    return wave[k] + v * (t - WAVE_T[k]), v
