"""P12  edge velocities are the time derivatives of the edge positions."""
from checks.mesh_common import *

LEVEL = "other"
EXPLANATION = ("Value graphs of edge positions and edge velocities after a move to a symbolic time, for every mesh configuration; the positions are "
               "differentiated symbolically.")
ASSUMPTIONS = ["finite-domain configurations are analysed before the outermost edge reaches the end of the domain",
               "the meshes that follow tabulated wave positions use a difference quotient: covered between the tabulated times of two tables, in numbers"]


def velocity(ctx):
    for cfg in CONFIGS:
        for N in (8, 36) if not ctx.thorough else (4, 8, 12, 16, 36):
            t = T.possym("t")
            m = Mesh(ctx, *cfg, N=N)
            m.move(t)
            e, D = m.edges, m.D
            at = T.single_atom(t)
            facts = [m.big]
            if "square-root" in cfg[0]:
                facts.append(T.lt(T.lift(1e-9), t))
            ctx.equal("velocity: %s N=%d" % (cfg[0], N), where(m.f), D, [T.diff(x, at) for x in e], facts=facts, boundary=False)
    ctx.rule("Dedges == d edges / dt for every edge after move(t), t symbolic (piecewise where the motion is piecewise)")


def front(ctx):
    """the outer edges travel at the requested speed, so the mesh contains the light cone"""
    t = T.possym("t")
    for cfg in CONFIGS:
        name = cfg[0]
        if name in ("boundary source",) or "stretched" in name or "square-root" in name:
            continue
        m = Mesh(ctx, *cfg)
        e0 = m.edges
        m.move(t)
        e = m.edges
        v = m.P["edge_v"]
        ctx.equal("front: %s" % name, where(m.f), e[-1], e0[-1] + v * t)
        if cfg[1] == "slab":
            ctx.equal("back front: %s" % name, where(m.f), e[0], e0[0] - v * t)
        else:
            ctx.equal("centre: %s" % name, where(m.f), e[0], T.ZERO)
    ctx.rule("outermost edges move with the edge speed; the centre of a sphere stays at the origin")


def arrival(ctx):
    """the stretched mesh is there at the final time"""
    for cfg in CONFIGS:
        if "stretched" not in cfg[0]:
            continue
        for N in (8, 12, 36):
            m = Mesh(ctx, *cfg, N=N)
            tf, pad = m.P["tfinal"], m.P["pad"]
            m.move(tf)
            ctx.equal("arrival: %s N=%d" % (cfg[0], N), where(m.f), m.edges, [pad * Fr(2 * k - N, N) for k in range(N + 1)], facts=[m.big, T.lt(m.P["t0"], tf)], boundary=False)
    ctx.rule("a mesh stretched to the pad covers [-pad, pad] in equal cells at the final time")


def shock(ctx):
    """the blast mesh: its ends stay, its centre edge follows the shock"""
    t = T.possym("t")
    cfg = [c for c in CONFIGS if c[0] == "boundary source"][0]
    for extra in ({}, {"x0": T.const(5), "fake_sedov_v0": T.const(Fr(2, 5)), "tfinal": T.const(10)}, {"x0": T.const(5), "fake_sedov_v0": T.const(-2), "tfinal": T.const(2)},
                  {"x0": T.const(5), "fake_sedov_v0": T.const(Fr(1, 1000)), "tfinal": T.const(Fr(1, 100))}):
        for N in (2, 8, 12):
            m = Mesh(ctx, *cfg, N=N, **extra)
            m.move(t)
            e, x0, v = m.edges, m.P["x0"], m.P["fake_sedov_v0"]
            at = "N=%d%s" % (N, " in numbers" if extra else "")
            ctx.equal("blast mesh %s" % at, where(m.f), [e[0], e[N // 2], e[-1]], [-x0, T.ZERO - v * t, x0], boundary=False)
    ctx.rule("boundary source: the outer edges stay at the ends of the domain and the centre edge moves with the shock speed")


def aligned(ctx):
    """an edge stays on the boundary of the initial source region; the cells inside do not move"""
    t = T.possym("t")
    for cfg in CONFIGS:
        if cfg[0] not in ("square pulse", "shell", "square source"):
            continue
        for N in (8, 12, 36):
            m = Mesh(ctx, *cfg, N=N)
            e0, x0 = m.edges, m.P["x0"]
            m.move(t)
            fixed = list(range(N // 4, N // 4 + N // 2 + 1)) if cfg[1] == "slab" else list(range(N // 2 + 2))
            ctx.equal("source region: %s N=%d" % (cfg[0], N), where(m.f), [m.edges[k] for k in fixed], [e0[k] for k in fixed])
            ctx.equal("source boundary: %s N=%d" % (cfg[0], N), where(m.f), [m.edges[fixed[-1]], m.edges[fixed[0]]], [x0, T.ZERO - x0 if cfg[1] == "slab" else T.ZERO])
    ctx.rule("square and shell problems: an edge stays on the boundary of the source region and the edges inside it do not move")


def wave(ctx):
    """meshes that follow a tabulated wave: between the tabulated times the wave has a constant speed"""
    for N in (16, 36):
        for nw, w in enumerate(WAVES):
            for t in (Fr(1, 2), Fr(3, 2), Fr(5, 2)):
                m, m2 = [wave_mesh(ctx, N, w).move(T.const(x)) for x in (t, t + Fr(1, 1000))]
                ctx.equal("velocity: wave %d N=%d t=%s" % (nw, N, t), where(m.f), m.D, [(b - a) * 1000 for a, b in zip(m.edges, m2.edges)])
    ctx.rule("meshes that follow a tabulated wave: velocities are the exact rate of the piecewise linear positions, between the tabulated times (in numbers)")


def check(ctx):
    ctx.section("wave", wave)
    ctx.section("blast mesh", shock)
    ctx.section("source region", aligned)
    ctx.section("arrival", arrival)
    ctx.section("velocity", velocity)
    ctx.section("front", front)
