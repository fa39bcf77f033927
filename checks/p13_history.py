"""P13  mesh: function of time only, static meshes stay put, cells stay positive."""
from checks.mesh_common import *

LEVEL = "other"
EXPLANATION = ("Value graphs of the mesh object along two-step histories with unordered symbolic times compared with a fresh object; ordering of the "
               "edges by entailment from the sign of the parameters.")
ASSUMPTIONS = ["finite-domain configurations are analysed before the outermost edge reaches the end of the domain",
               "the meshes that follow tabulated wave positions are not covered"]


def history(ctx):
    for cfg in CONFIGS:
        t1, t2 = T.possym("t1"), T.possym("t2")
        a = Mesh(ctx, *cfg).move(t2)
        b = Mesh(ctx, *cfg)
        b.move(t1)
        gate = T.FALSE
        if cfg[3].get("finite_domain"):
            # compared unless the outermost edge had already arrived at the end of the domain
            w = b.P["domain_width"] / 2
            gate = T.or_(T.le(w, b.edges[-1]), T.le(T.abs_(b.edges[-1] - w), T.const(Fr(1, 100))))
        b.move(t2)
        for what, got, want in (("edges", b.edges, a.edges), ("velocities", b.D, a.D)):
            ctx.equal("history %s: %s" % (what, cfg[0]), where(a.f), [T.ite(gate, T.ZERO, x) for x in got], [T.ite(gate, T.ZERO, x) for x in want],
                      facts=[b.big], boundary=False)
    ctx.rule("move(t1); move(t2) leaves the same edges and velocities as move(t2) alone, for any t1, t2 (t1 > t2 included: rejected steps)")


def inputs(ctx):
    """the arrays a mesh is made from belong to the caller"""
    for cfg in CONFIGS:
        for mv in (1, 0):
            m = Mesh(ctx, *cfg, moving=mv)
            for again in range(2):
                for k, want in (("quad_thick_source", QUAD[8]), ("quad_thick_edge", EDGE[8])):
                    got = list(m.I.cells(m.P[k]))
                    ctx.equal("%s kept: %s moving=%d step %d" % (k, cfg[0], mv, again), where(m.f), got, [T.const(Fr(v)) for v in want])
                m.move(T.possym("t1"))
    ctx.rule("making and moving a mesh leaves the node arrays it was given as they were: a second mesh made from them is the same")


def static(ctx):
    for cfg in CONFIGS:
        if cfg[3].get("finite_domain"):
            continue
        t = T.possym("t")
        m = Mesh(ctx, *cfg, moving=0)
        e0 = m.edges
        ctx.equal("static velocities: %s" % cfg[0], where(m.f), m.D, [T.ZERO] * (m.N + 1))
        m.move(t)
        ctx.equal("static edges: %s" % cfg[0], where(m.f), m.edges, e0)
        ctx.equal("static velocities after move: %s" % cfg[0], where(m.f), m.D, [T.ZERO] * (m.N + 1))
        if "thick" not in cfg[0] and cfg[0] != "boundary source":
            mm = Mesh(ctx, *cfg).move(m.P["tfinal"])
            ctx.equal("static mesh sits at the final positions: %s" % cfg[0], where(m.f), e0, mm.edges)
    ctx.rule("static: zero velocities, edges unchanged by move, placed where the moving mesh ends")


def ordered(ctx):
    for cfg in CONFIGS:
        for N in (4, 8, 36) if not ctx.thorough else (4, 8, 12, 16, 36):
            t = T.possym("t")
            for mv in (1, 0):
                if cfg[3].get("finite_domain"):
                    continue
                m = Mesh(ctx, *cfg, N=N, moving=mv)
                key = "%s N=%d moving=%d" % (cfg[0], N, mv)
                e = m.edges
                ctx.require("edge count " + key, len(e) == N + 1 and len(m.D) == N + 1, where(m.f), "%d edges for %d cells" % (len(e), N))
                for step in range(2):
                    facts = []
                    if cfg[0] == "boundary source":
                        v = m.P["fake_sedov_v0"] * m.P["tfinal"]
                        facts = [T.lt(v, m.P["x0"]), T.lt(T.ZERO - m.P["x0"], v), T.lt(t, m.P["tfinal"])]
                    bad = [k for k in range(N) if not positive(ctx, e[k + 1] - e[k], facts, m, t)]
                    ctx.require("ordered %s step %d" % (key, step), not bad, where(m.f), "cells %s are not provably of positive width: %s" % (
                        bad, T.show(e[bad[0] + 1] - e[bad[0]])[:300] if bad else ""))
                    if cfg[0] == "dipole":
                        pass
                    elif cfg[1] == "slab" and cfg[0] != "boundary source":
                        ctx.equal("symmetric %s step %d" % (key, step), where(m.f), e, [T.ZERO - x for x in reversed(e)])
                    m.move(t)
                    e = m.edges
    ctx.rule("N+1 strictly increasing edges, initially and after any move; slab meshes symmetric")


def positive(ctx, d, facts, m, t):
    if cfg_boundary(facts):
        # affine in t: positive at both ends of [0, tfinal]
        at = T.single_atom(t)
        ends = [T.subst(d, {at: T.ZERO}), T.subst(d, {at: m.P["tfinal"]})]
    else:
        ends = [d]
    for x in ends:
        if C.mismatches(T.lt(T.ZERO, x), T.TRUE, tuple(ctx._lits(facts)), True, limit=1):
            return False
    return True


def cfg_boundary(facts):
    return bool(facts)


def wave(ctx):
    """meshes that follow a tabulated wave, on tables that are monotone"""
    times = [Fr(1, 20), Fr(1, 2), Fr(3, 2), Fr(3), Fr(3, 2), Fr(1, 20), Fr(5, 2)]
    for N in (16, 36):
        for nw, w in enumerate(WAVES):
            m = wave_mesh(ctx, N, w)
            e0 = m.edges
            for step, t in enumerate(times):
                key = "wave %d N=%d step %d" % (nw, N, step)
                m.move(T.const(t))
                e = m.edges
                fresh = wave_mesh(ctx, N, w).move(T.const(t))
                ctx.equal("following " + key, where(m.f), [e, m.D], [fresh.edges, fresh.D])
                ctx.equal("symmetric " + key, where(m.f), e, [T.ZERO - x for x in reversed(e)])
                s = wave_at(w, t)[0]
                if s < Fr(1, 2):
                    ctx.equal("waiting " + key, where(m.f), e, e0)
                else:
                    ctx.equal("bracketed " + key, where(m.f), e[-4:], [T.const(max(T.const_val(b), s + d)) for b, d in zip(e0[-4:], (Fr(-1, 10), 0, Fr(1, 10), Fr(1, 5)))])
                    bad = [k for k in range(N) if not T.const_val(e[k + 1] - e[k]) > 0]
                    ctx.require("ordered " + key, not bad, where(m.f), "cells %s have no positive width" % bad)
    ctx.rule("meshes that follow a tabulated wave: edges around the wave at its position and at the two pads, symmetric, ordered, and independent of the times visited before "
             "(monotone tables, times inside the table, in numbers)")


def check(ctx):
    ctx.section("wave", wave)
    ctx.section("history", history)
    ctx.section("inputs", inputs)
    ctx.section("static", static)
    ctx.section("ordered", ordered)
