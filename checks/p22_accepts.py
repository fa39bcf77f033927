"""P22  contradictory configurations are refused, consistent and shipped ones start."""
import glob
import os
import itertools
import yaml
from sa.check import REPO
from checks.e2e import *

LEVEL = "other"
EXPLANATION = ("A whole run is followed from the user's entry point to the integrator, for every combination of the mutually exclusive switches and of list lengths, "
               "and for every problem section of every shipped input file (parsed as data): it must be refused before anything is built, or reach the integrator.")
OPT = ("constant", "gaussian", "siewert1", "siewert2", "fake_sedov")


def outcome(ctx, entry, **over):
    r = Run(ctx, entry, 0, 1, **over)
    r.go()
    built = [o for o in r.I.created if o.cls is not None and o.cls.name not in ("run", "main_class")]
    return r, built


def exclusive(ctx):
    groups = [("geometry", ("slab", "sphere")), ("radiative_transfer", ("none", "rad_transfer", "const_cv")), ("sigma_func", OPT)]
    for key, names in groups:
        for n in range(1, min(3, len(names)) + 1):
            for on in itertools.combinations(names, n):
              # yes/no entries may be written as truth values or as 1 and 0
              for form in (bool, int):
                d = {k: form(k in on) for k in names}
                if key == "geometry":
                    # the helper takes the geometry by name
                    r = Run(ctx, "plane_IC", 0, 1)
                    r.cfg["all"]["geometry"] = d
                    r = Run(ctx, "plane_IC", 0, 1, cfg=(r.cfg, r.mp))
                    r.go()
                else:
                    r = Run(ctx, "plane_IC", 0, 1, **{key: d})
                    r.go()
                built = [o for o in r.I.created if o.cls is not None and o.cls.name in ("build", "mesh_class")]
                title = "%s: %s%s" % (key, "+".join(on), ", as numbers" if form is int else "")
                if n >= 2:
                    ctx.require(title + " is refused", not built and not r.ivp and r.raised is not None, where(r.f),
                                "%s: two exclusive options are accepted" % title)
                elif key != "radiative_transfer" or on == ("none",):
                    ctx.require(title + " is accepted", bool(r.ivp), where(r.f), "%s: refused: %s" % (title, r.raised))
    ctx.rule("two or more exclusive options on: every path stops before a component is built; exactly one: the integrator is reached")


def lengths(ctx):
    for a, b, c in itertools.product((1, 2, 3), repeat=3):
        r0 = Run(ctx, "square_IC", 0, 1)
        cfg, mp = r0.cfg, r0.mp
        cfg["all"]["N_spaces"] = [4] * a
        cfg["all"]["Ms"] = [0] * b
        cfg["square_IC"]["N_angles"] = [2] * c
        title = "lengths %d, %d, %d" % (a, b, c)
        r = Run(ctx, "square_IC", 0, 1, cfg=(cfg, mp))
        try:
            r.go()
        except Undecided:
            # a component built from a list that has no such entry cannot be followed further
            if a == b == c or not r.I.oob:
                raise
        built = [o for o in r.I.created if o.cls is not None and o.cls.name in ("build", "mesh_class")]
        if a == b == c:
            ctx.require(title, len(r.ivp) == a, where(r.f), "%s: %d integrations: %s" % (title, len(r.ivp), r.raised))
        else:
            ctx.require(title, not built and not r.ivp and r.raised is not None, where(r.f), "%s: accepted" % title)
    ctx.rule("lists of cells, orders and angles of different lengths: every path stops before a component is built; equal lengths: one integration each")


def lit(x):
    if isinstance(x, dict):
        return {str(k): lit(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [lit(v) for v in x]
    if isinstance(x, float):
        return T.const(Fr(repr(x)))
    return x


def shipped(ctx):
    """every section of every shipped input file can be started"""
    folder = os.path.join(REPO, "moving_mesh_transport", "input_scripts")
    with open(os.path.join(folder, "mesh_parameters.yaml")) as f:
        mesh = yaml.safe_load(f)
    I = ctx.interp()
    rf = I.func("run")
    methods = set(rf.members)
    for path in sorted(glob.glob(os.path.join(folder, "*.yaml"))):
        base = os.path.basename(path)[:-5]
        if base == "mesh_parameters":
            continue
        with open(path) as f:
            data = yaml.safe_load(f)
        for sec in data:
            if sec == "all" or sec not in methods:
                continue
            d = lit(data)
            # the number of runs is the user's; the rest of the section is taken as shipped
            d["all"]["N_spaces"], d["all"]["Ms"] = [8], [1]
            d[sec]["N_angles"] = [2]
            d[sec]["benchmarking"] = False        # needs a data file that is not part of the input
            r = Run(ctx, sec, sec != "MMS" and sec != "boundary_source", 1, cfg=({"all": d["all"], sec: d[sec]}, lit(mesh)))
            err = None
            try:
                r.go()
            except Undecided as e:
                err = str(e)
            title = "shipped %s.yaml %s" % (base, sec)
            if r.ivp:
                ctx.require(title, True, "", "")
                continue
            kinds = [(k, loc(n)) for _, k, n in r.I.raises]
            if not kinds and r.raised is None:
                raise Undecided("%s: %s" % (title, err))
            what = "%s stops before integrating: %s %s" % (title, r.raised or err, kinds[:2])
            defect = "shipped_" + base if kinds and kinds[0][0] in ("KeyError", "AttributeError") else None
            ctx.require(title, False, "%s" % os.path.relpath(path, REPO), what, defect=defect)
    ctx.rule("each problem section of each shipped input file, with its own values, reaches the integrator")


def check(ctx):
    ctx.section("exclusive", exclusive)
    ctx.section("lengths", lengths)
    ctx.section("shipped", shipped)
