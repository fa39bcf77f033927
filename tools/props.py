#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json
import os
import glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "moving_mesh_transport/solver_classes/"
SF = "moving_mesh_transport/solver_functions/"
LS = "moving_mesh_transport/loading_and_saving/"
TESTS = "The three reliable tests sample two benchmark points of a closed form and print a spline; none of them reaches this code. "
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech, note):
    assert len(title) <= 80, title
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=TESTS + why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)), tech, note))


GVG = "abstract interpretation to gated value graphs (global value numbering)"

P("P01", "Chebyshev basis polynomials are exact at every degree",
  "For every supported degree and every point of a cell, the spherical basis function is the Chebyshev polynomial of that degree on the cell, with the documented normalisation. "
  "A degree outside the supported table is refused, never answered with a wrong value.",
  "inputs", "all degrees, all points, all cells",
  "The polynomials are a hand-written table; a wrong coefficient at a high degree only shows at high expansion order.",
  [SC + "functions.py"], [("Chebyshev table and dispatcher", SC + "functions.py")],
  GVG + "; leaf polynomials compared coefficientwise with the recurrence", "every degree of the table, exact rational coefficients")
P("P02", "Legendre basis and its derivative are exact and mutually consistent",
  "For every degree and every point of a cell the slab basis function is the Legendre polynomial normalised on that cell, whether it is evaluated on an array or at a single point. "
  "The basis derivative is its derivative with respect to position on the same cell.",
  "inputs", "all degrees up to 11, all points, all cells",
  "A missing chain factor or a wrong table entry shows only at particular degrees and cell widths.",
  [SC + "functions.py"], [("Legendre evaluators and derivative", SC + "functions.py")],
  GVG + "; comparison with the recurrence and with the symbolic derivative of the evaluator's own graph", "degrees 0..11")
P("P03", "Quadrature rules integrate what their names promise",
  "Each quadrature rule the solver builds (Gauss-Legendre, Gauss-Lobatto, Chebyshev of the first kind) has the nodes and weights of the named rule for the order asked, every weight at the place of its node. "
  "The iteration that finds interior nodes and its weights uses the true polynomial and its true derivatives.",
  "inputs configurations", "all orders, all rule names",
  "Quadrature errors are silent: they only reduce accuracy for integrands of high degree.",
  [SC + "functions.py", SC + "build_problem.py"], [("quadrature", SC + "functions.py")],
  GVG + " with the root finder kept uninterpreted; formulas of nodes, weights and one Newton step compared with the definition",
  "orders 1-5 and 8; convergence of the Newton iteration itself is not decided")
P("P04", "Tabulated sphere integrals equal the integrals they stand for",
  "For every pair of basis indices, every cell and all cell-end velocities, the closed-form entries of the moving-sphere matrices equal the weighted integral of the basis functions they abbreviate. "
  "Index pairs beyond the table are refused or yield no entry, never a wrong one.",
  "inputs", "all index pairs, all cells, all edge velocities",
  "121 closed forms; a sign error in one is invisible unless that order is used on a moving cell away from the origin.",
  [SC + "GMAT_sphere.py"], [("GMatrix / MPRIME tables", SC + "GMAT_sphere.py")],
  GVG + "; rational functions compared with exact integration of the basis", "every index pair of both tables")
P("P05", "Slab gradient and mesh-motion matrices match the moving basis",
  "In slab geometry the matrices used in a cell are the exact integrals of the basis against its position derivative and against its time derivative on that cell, for every order, cell and pair of edge velocities. "
  "They do not depend on which cell was assembled before.",
  "inputs histories", "all cells, all edge velocities, assembly order",
  "A stale or mis-indexed entry depends on the previous cell.",
  [SC + "matrices.py"], [("matrix assembler", SC + "matrices.py")],
  GVG + "; entries compared with exact integrals; second assembly on the same object compared with a fresh one", "orders 1-6 (thorough: more)")
P("P06", "Sphere matrices are assembled from the coefficient files without mix-up",
  "In spherical geometry every entry of the mass, gradient, absorption, mesh-motion and angular matrices of a cell equals the exact integral over that cell, given coefficient files in the documented layout, whatever the cell, the order and the cell assembled before.",
  "inputs histories configurations", "all cells, orders, edge velocities, common denominators",
  "The coefficient files are not in the repository, so no test can assemble a spherical matrix.",
  [SC + "matrices.py", SF + "Chebyshev_matrix_reader.py"], [("file reader", SF + "Chebyshev_matrix_reader.py"), ("assembler", SC + "matrices.py")],
  GVG + " of reader and assembler over symbolic data sets", "orders 0-3; the contents of the missing files are an assumption")
P("P07", "Projections integrate the function against each basis function of its cell",
  "Every projection of a function on the mesh (initial condition, sources, uncollided flux, opacity, emission, collision) stores, for each cell and order, the quadrature of that function times that basis function over that cell, evaluated at points of that cell and at the current time. "
  "No coefficient depends on what was projected before.",
  "inputs histories", "all functions, cells, orders, quadratures",
  "An index or weight slip depends on order and cell.",
  [SC + f for f in ("build_problem.py", "sources.py", "opacity.py", "rhs_class_1.py", "radiative_transfer.py")],
  [("initial condition projection", SC + "build_problem.py"), ("source integrals", SC + "sources.py"), ("opacity moments", SC + "opacity.py"), ("emission", SC + "radiative_transfer.py")],
  GVG + " with an uninterpreted projected function and symbolic quadrature", "small numbers of cells, orders and nodes; all values symbolic")
P("P08", "Source strength enters exactly once and sources stop on time",
  "Every external source has the documented shape in space and is exactly zero after its switch-off time, and the result of every source, pulse and uncollided flux is the source strength times its unit-strength value. "
  "With the uncollided treatment on, the collided problem is fed by the uncollided scalar flux and nothing else.",
  "inputs configurations", "all strengths, positions, times, source types",
  "The tests always use one strength, so a doubled or missing factor is invisible.",
  [SC + "sources.py", SC + "uncollided_solutions.py", SC + "build_problem.py"], [("source moments", SC + "sources.py"), ("uncollided pulses", SC + "uncollided_solutions.py")],
  GVG + "; linearity in the strength decided on the graph", "known finding: point pulse in the sphere")
P("P09", "The initial state contains exactly the prescribed initial flux",
  "For every problem type and geometry the initial angular flux is the documented one at every point and angle, and it is zero when the uncollided treatment carries the initial pulse. "
  "A plane pulse deposits the same amount of particles whatever the number of cells, order and mesh.",
  "inputs configurations", "all points, angles, problem types, meshes", "Initial states are projected inside compiled classes the tests never build.",
  [SC + "build_problem.py"], [("initial condition", SC + "build_problem.py")],
  GVG + "; compared with the documented initial flux region by region", "small meshes; all parameters symbolic")
P("P10", "The uncollided flux is a pure function of position and time",
  "The uncollided scalar flux at a point is the same whether it is evaluated alone or in an array, before or after any other evaluation, and is zero for problems without an uncollided solution or with the treatment switched off. "
  "It never leaves part of an array with values of an earlier call.",
  "inputs histories configurations", "all arrays, call histories, problem types", "The result depends on call history only when two calls share an object.",
  [SC + "uncollided_solutions.py"], [("dispatch", SC + "uncollided_solutions.py")],
  GVG + "; array evaluation and re-evaluation compared with a fresh point evaluation", "all source types x geometries")
P("P11", "Closed-form uncollided fluxes equal the free-flight integrals",
  "For every problem with an uncollided solution, the flux returned at every position and time, in every causal region (before arrival, inside, after switch-off), is the exact integral of the attenuated source or pulse over its free flights. "
  "In particular it vanishes ahead of the front, is symmetric in the slab, and starts from the prescribed pulse.",
  "inputs", "all positions and times, all causal regions",
  "The existing tests sample a few points of one of these forms; each has up to six regions in position and time.",
  [SC + "uncollided_solutions.py", SC + "functions.py"], [("closed forms", SC + "uncollided_solutions.py")],
  GVG + "; compared region by region (polyhedral guards) with the integral", "integrals evaluated by quadrature in the code are compared as integrands and limits")
P("P12", "Edge velocities are the time derivative of the edge positions",
  "At every time, for every problem type and mesh option, the velocity the solver uses for a cell edge is the derivative of that edge's position, and the outermost edge of a moving mesh advances with the front speed of the problem. A mesh that is to reach a given position by the final time is there at that time, the centre edge of a blast mesh follows the shock, and an edge stays on the boundary of a square or shell source.",
  "inputs configurations", "all times, problem types, mesh sizes", "A mismatch does not crash: it silently loses conservation.",
  [SC + "mesh.py", SC + "mesh_functions.py"], [("mesh motion", SC + "mesh.py")],
  GVG + "; symbolic time derivative of the position graph", "meshes following tabulated wave positions are excluded")
P("P13", "The mesh is a function of time; it stays ordered and static meshes stay put",
  "Moving the mesh to a time gives the same edges and velocities whatever times it was moved to before, later times included, so rejected integrator steps leave no trace. "
  "Edges are strictly increasing with one more edge than cells, and a mesh declared static never moves and has zero edge velocities.",
  "histories inputs configurations", "all sequences of times, problem types, mesh sizes", "History dependence needs an integrator that steps back in time.",
  [SC + "mesh.py", SC + "mesh_functions.py"], [("mesh motion", SC + "mesh.py"), ("initial edges", SC + "mesh_functions.py")],
  GVG + "; two-step histories compared with a fresh object, order by polyhedral entailment", "meshes following tabulated wave positions and the freeze at the domain end are excluded")
P("P14", "Cell-edge fluxes are upwinded relative to the moving edge",
  "The flux through a cell edge uses the neighbour the particles come from relative to the edge's motion, multiplied by the relative speed; both neighbours of an edge see the same flux. "
  "At the domain ends the incoming flux is the one the boundary condition prescribes: vacuum, reflection, a prescribed source, or a manufactured solution; the centre of a sphere reflects.",
  "inputs configurations", "all edge velocities, angles, traces, cell positions, boundary conditions", "Needs an edge moving faster than the particle's direction cosine to matter.",
  [SC + "numerical_flux.py"], [("numerical flux", SC + "numerical_flux.py")],
  GVG + "; compared with the upwind flux built from basis traces", "prescribed boundary source only in the slab; plus cases with many cells (34, or more if the code compares with larger numbers), 18 angles or a high order")
P("P15", "The spherical update is the discrete spherical transport equation",
  "In spherical geometry with constant opacity the rate of change returned for every angle, cell and order is the discrete transport equation: streaming, angular redistribution, edge fluxes, absorption, scattering, sources and mesh motion, each once and with its sign. ",
  "inputs", "all states, meshes, velocities, opacities, sources", "The spherical matrices are not in the repository: no test can run it.",
  [SC + "rhs_class_1.py"], [("right-hand side", SC + "rhs_class_1.py")],
  GVG + " of the whole right-hand side; compared component by component", "small numbers of angles, cells and orders; all values symbolic; plus cases with many cells (34, or more if the code compares with larger numbers), 18 angles or a high order")
P("P16", "Angular redistribution on any ordinate set conserves particles",
  "In spherical geometry the angular difference term at every ordinate vanishes at the two end directions and, summed over all ordinates with their spacing, is zero for any angular flux and any ordinate set: angular redistribution neither creates nor destroys particles.",
  "inputs", "all angular fluxes, all increasing ordinates", "A wrong mid-point only shows with unevenly spaced ordinates.",
  [SC + "rhs_class_1.py", SC + "functions.py"], [("angular derivative", SC + "rhs_class_1.py")],
  GVG + "; weighted sum decided to be zero", "up to 8 ordinates")
P("P17", "The slab update is the weak form of transport on the moving mesh",
  "In slab geometry the rate of change returned for every angle, cell and order is the weak form of the transport equation on the moving cells, for constant and position-dependent opacity, with each external, uncollided or manufactured source counted once. "
  "In a uniform cell the total number of particles changes only by absorption, scattering, sources and boundary fluxes.",
  "inputs configurations", "all states, meshes, velocities, opacities, sources", "The tests never build the solver.",
  [SC + "rhs_class_1.py"], [("right-hand side", SC + "rhs_class_1.py")],
  GVG + " of the whole right-hand side; compared component by component", "small numbers of angles, cells and orders; all values symbolic; plus cases with many cells (34, or more if the code compares with larger numbers), 18 angles or a high order")

NA = []


def na(pid, reason):
    NA.append(dict(property=pid, reason=reason))


exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

PROPS.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in PROPS:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
nas = {x["property"] for x in NA}
M = dict(version=1, setup_cmd="python3-vt -c 'import sys; sys.exit(0)'", checks=[], not_applicable=NA,
         notes="One engine (sa/), one check per property (checks/). Static: /repo is only parsed, never imported or run.")
for p, tech, note in PROPS:
    if p["id"] in nas:
        continue
    if not glob.glob(os.path.join(HERE, "checks", p["id"].lower() + "_*.py")):
        print("no check for", p["id"])
        continue
    c = "python3-vt /verif/check.py " + p["id"]
    M["checks"].append(dict(property=p["id"], quick_cmd=c, thorough_cmd=c + " --tier thorough", evidence_file="evidence/%s.json" % p["id"],
                            technique=tech, level="other", level_note=note))
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(M["checks"]), "checks")

# ------------------------------------------------------------------ DESIGN.md
import ast
import subprocess


def explanation(pid):
    f, = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "EXPLANATION":
            return ast.literal_eval(n.value), os.path.basename(f)
    return "", os.path.basename(f)


tab = []
for p, tech, note in PROPS:
    if p["id"] in nas:
        continue
    text, f = explanation(p["id"])
    cost = ""
    ev = os.path.join(HERE, "tools", "cost.json")
    if os.path.exists(ev):
        c = json.load(open(ev)).get(p["id"])
        if c:
            cost = " Quick run: %s obligations, %s s." % tuple(c)
    tab.append("### %s %s\n\n%s\n\n*Decided by* `checks/%s`: %s. %s\n*Anchors*: %s. *Bounds*: %s.%s\n" % (
        p["id"], p["title"], p["statement"], f, tech, text, ", ".join("`%s`" % x.replace("moving_mesh_transport/", "") for x in p["anchors"]["files"]), note, cost))
kf = [l.strip() for l in open(os.path.join(HERE, "known_findings.txt"))]
fixed = "\n".join("* " + l[len("fixed: property="):].replace(" before:", " — before:") for l in kf if l.startswith("fixed: property"))
known = "\n".join("* " + l[len("known: property="):].replace(" key=", " `", 1).replace(" ", "` ", 2).replace("` `", " `", 1) for l in kf if l.startswith("known: property"))
seeds = ["| planted change | property | breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], ", ".join(d.get("caught_by", [d["property"]])) or "missed"))
robust = open(os.path.join(HERE, "tools", "robust.md")).read() if os.path.exists(os.path.join(HERE, "tools", "robust.md")) else ""
naT = "\n".join("* **%s** %s: %s." % (x["property"], next(p["title"] for p, _, _ in PROPS if p["id"] == x["property"]), x["reason"]) for x in NA)
src = open(os.path.join(HERE, "tools", "design.in.md")).read()
for k, v in (("TABLE", "\n".join(tab)), ("FIXED", fixed), ("KNOWN", known), ("SEEDS", "\n".join(seeds)), ("ROBUST", robust), ("NA", naT)):
    src = src.replace("@@%s@@" % k, v)
open(os.path.join(HERE, "DESIGN.md"), "w").write(src)
