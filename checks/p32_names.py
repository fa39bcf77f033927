"""P32  everything reachable code refers to exists and takes the arguments it is given."""
from sa.repo import loc
from sa.structural import Model

LEVEL = "other"
EXPLANATION = ("Lexical name resolution, import resolution, field resolution with inferred receiver classes, call signature matching, tuple length matching and a "
               "may-assigned dataflow over every function that the run entry points and the result loader can reach by name.")
ROOTS = ("moving_mesh_transport.solver_functions.run_functions", "moving_mesh_transport.solver", "moving_mesh_transport.loading_and_saving.load_solution")
CLASSES = ("run", "load_sol", "main_class")


def check(ctx):
    box = {}

    def build(ctx):
        m = box["m"] = Model(ctx.repo, [r for r in ROOTS], CLASSES)
        ctx.require("entry", all(r in ctx.repo.modules for r in ROOTS), "moving_mesh_transport", "an entry module of the package is missing or does not parse")
        ctx.analysed |= {(f.mod.path, f.qual) for f in m.live}
        for path, err in ctx.repo.broken.items():
            names = path[:-3].replace("/", ".")
            for mn in m.mods:
                if names in imported(m, mn):
                    ctx.violate("parse", path, "a module the run imports does not parse: %s" % err)
    ctx.section("model", build)
    if "m" not in box:
        return
    m = box["m"]
    m.liveset = set(m.live)
    for key, rule, f in (("import", "every import between modules of the package resolves", m.check_imports),
                         ("name", "every name read is bound in an enclosing scope, the module or the builtins", m.check_names),
                         ("field", "fields and methods read from objects of inferred class exist; compiled classes declare the fields they store", m.check_attrs),
                         ("call", "arguments fit the parameters of the function, method or constructor called", m.check_calls),
                         ("unpack", "tuples are taken apart into as many names as the function returns", m.check_unpack),
                         ("unassigned", "no local variable is read where no path has assigned it", m.check_assigned)):
        def go(ctx, f=f, rule=rule, key=key):
            bad, ok = f()
            ctx.rule(rule)
            ctx.obligations += ok + len(bad)
            ctx.discharged += ok
            for node, fn, msg in bad:
                ctx.violate("%s:%s:%s" % (key, fn.qual, msg[:60]), loc(node), "%s: %s" % (fn.qual, msg), defect(fn, msg))
        ctx.section(key, go)


def defect(fn, msg):
    """documented defective form a violation matches"""
    if fn.mod.path.endswith("wave_loc_estimator.py") and msg.endswith("no value for parameter 'geometry'") and ("find_nodes" in msg or "make_output" in msg):
        return "wave_finder_geometry"


def imported(m, mn):
    import ast
    mod = m.repo.modules[mn]
    out = set()
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.ImportFrom):
            b = mod.resolve_from(s)
            out |= {b} | {b + "." + a.name for a in s.names}
        elif isinstance(s, ast.Import):
            out |= {a.name for a in s.names}
    return out
