P("P18", "Opacity enters as the named profile and its moments are never stale",
  "Absorption and scattering in every slab cell use the opacity profile named in the configuration, projected on the current cells at the current time: after the mesh or the time has changed, no coefficient of an earlier mesh, time or cell is used. "
  "Products of opacity and flux are combined with the exact triple products of the basis.",
  "inputs histories configurations", "all meshes, times, update sequences, profiles", "A stale moment appears only if some edges move and others stay.",
  [SC + "opacity.py", SC + "phi_class.py"], [("opacity moments and vectors", SC + "opacity.py"), ("scattering vector", SC + "phi_class.py")],
  GVG + "; two updates with every subset of coinciding edges compared with a fresh object", "up to 3 cells, small orders; all values symbolic; plus cases with many cells (34, or more if the code compares with larger numbers), 18 angles or a high order")
P("P19", "Reported fluxes evaluate the expansion of the cell that holds the point",
  "At every requested point the reported angular flux is the expansion of the cell that contains the point, zero outside the mesh, and the reported scalar flux is its sum over the angular weights plus the uncollided flux exactly once when that treatment is on. "
  "The exit distribution uses the traces of the two end cells, the reported energy density the material row of the state.",
  "inputs configurations", "all points, states, meshes, angular sets", "No test evaluates an output.",
  [SC + "make_phi.py"], [("output evaluation", SC + "make_phi.py")],
  GVG + "; a symbolic point in an arbitrary cell; cell search decided by polyhedral entailment", "up to 3 cells (thorough 4); plus cases with many cells (34, or more if the code compares with larger numbers), 18 angles or a high order")
P("P20", "Scattering redistributes particles and neither creates nor destroys them",
  "In every cell and order the scattering gain, summed over the angular weights, equals the scattering share of the absorption loss, for any angular flux and any weights, so a purely scattering medium keeps its particles. "
  "The gain is the same in every direction.",
  "inputs configurations", "all states, opacities, weights, cells", "A normalisation error of the angular weights shows in no closed form of the tests.",
  [SC + "phi_class.py", SC + "opacity.py", SC + "rhs_class_1.py"], [("scattering gain", SC + "phi_class.py"), ("loss", SC + "opacity.py")],
  GVG + "; angular balance decided on the graphs of gain, loss and the whole update", "small numbers of angles, cells and orders; plus cases with many cells (34, or more if the code compares with larger numbers), 18 angles or a high order")
P("P21", "Every configuration entry reaches the component it configures, unchanged",
  "In every run each component (mesh, sources, fluxes, opacity, quadratures, right-hand side) has exactly the values of the configuration entries that name them, and the time integrator gets the configured method, tolerances, step limit, time span and output times. "
  "In a study over several sizes, every run uses its own sizes and source positions.",
  "configurations", "all values of all entries, problem types, geometries, studies of several sizes",
  "Some fifty parameters pass by position through several constructors; two of them exchanged often make no difference in the default configuration.",
  [SC + "build_problem.py", SC + "mesh.py", SF + "run_functions.py", "moving_mesh_transport/solver.py", LS + "load_parameters.py", SF + "main_functions.py"],
  [("entry points", SF + "run_functions.py"), ("parameter loading", LS + "load_parameters.py"), ("construction and integration", SF + "main_functions.py")],
  GVG + " of a whole run, one symbol per configuration entry; components compared field by field with construction by parameter name", "20 scenarios; options (problem, switches, opacity, geometry, boundaries, sizes) crossed pair by pair; the entries are symbols")
P("P22", "Contradictory configurations are refused, consistent and shipped ones start",
  "A configuration that switches on two exclusive options (geometry, thermal coupling, opacity profile) or gives size lists of different lengths is refused before anything is computed. "
  "A consistent configuration, and every problem section of every shipped input file, is accepted and reaches the time integration.",
  "configurations", "all combinations of exclusive options, list lengths, shipped inputs", "No test loads an input file.",
  [LS + "load_parameters.py", SF + "run_functions.py", "moving_mesh_transport/input_scripts/transport.yaml"],
  [("input checks", LS + "load_parameters.py"), ("shipped inputs", "moving_mesh_transport/input_scripts/")],
  GVG + " of a whole run; effect analysis: which components exist when every path has stopped", "pairs and triples of options, lengths 1-3; known finding: eight obsolete shipped inputs")
P("P23", "Results are the solution of the requested time at the requested points",
  "The positions, fluxes, angular fluxes and exit distributions a run reports are the evaluation of the integrator's solution at each requested time, on the mesh of that time, at the requested positions or else at the nodes of that mesh, in the order the times were asked. "
  "A thermally coupled run also reports its material energy.",
  "inputs configurations", "all solutions of the integrator, times, positions, problem types", "A mix of one time's solution with another time's mesh is a plausible-looking profile.",
  [SF + "main_functions.py", "moving_mesh_transport/solver.py", SF + "run_functions.py", SC + "make_phi.py"],
  [("evaluation of the solution", SF + "main_functions.py"), ("reported fields", "moving_mesh_transport/solver.py")],
  GVG + " of a whole run with one symbol per unknown and output time", "12 scenarios; options (problem, switches, opacity, geometry, boundaries, sizes, output times and points) crossed pair by pair; known finding: thermal coupling")
P("P24", "The rate of change depends only on the time and the state it is given",
  "The rate of change of the solution at a time and a state is the same whatever times and states it was evaluated at before, so the integrator may step back, repeat or reject steps freely. "
  "Evaluating it leaves the given state untouched.",
  "inputs histories schedules", "all sequences of times and states, geometries, sources, opacities", "An adaptive integrator revisits times in an order no test fixes; a remnant of an earlier evaluation shows only then.",
  [SC + "rhs_class_1.py", SC + "phi_class.py", SC + "sources.py", SC + "mesh.py", SC + "opacity.py"], [("rate of change", SC + "rhs_class_1.py")],
  GVG + "; evaluation after another evaluation compared with evaluation on fresh components; effect analysis of the state array", "two and three evaluations in a row, forwards, backwards and equal times; small sizes; call counters at an arbitrary number; options (problem, switches, opacity, geometry, boundaries, sizes) crossed pair by pair")
P("P25", "A run does not depend on the runs made before it",
  "A run made after other runs on the same objects (other problem, other switches, another loaded input file, the same one again) uses the components, and reports the fields, of the same run made first, and running all variants at once equals running each alone. "
  "The loaded configuration is the same afterwards.",
  "inputs histories configurations", "all sequences of runs on one object, switches, problem types", "No test makes a run, let alone two.",
  [SF + "run_functions.py", "moving_mesh_transport/solver.py", LS + "load_parameters.py"], [("entry points", SF + "run_functions.py"), ("loop over sizes and switches", "moving_mesh_transport/solver.py")],
  GVG + " of sequences of whole runs; effect analysis of the configuration", "12 sequences of runs and 10 of loading another input file in between; one symbol per configuration entry")
P("P26", "A saved solution is loaded back unchanged under the settings it was saved for",
  "Positions, fluxes, angular data, edges and coefficients saved for one set of settings are what the loader returns for these settings, for every problem and source the loader documents, also after saving them again and after saving under settings that differ in one entry. "
  "A run with saving switched on saves what it reports.",
  "inputs histories configurations", "all values, all sequences of two savings, problem names, settings", "No test opens a data file; saver and loader build the same key by separate code.",
  [LS + "save_output.py", LS + "load_solution.py", "moving_mesh_transport/solver.py"], [("saver", LS + "save_output.py"), ("loader", LS + "load_solution.py")],
  GVG + " with a model of the data file whose paths are string templates", "two savings at a time; known findings: psi at root, coefficients of final time, wave points, default file")
P("P27", "Reported errors measure the distance to this problem's benchmark",
  "With benchmarking on, the error of each size is the root mean square, over the reported points, of the flux minus the benchmark of that source and time, and the benchmark is the stored table inside its interval and zero beyond it at every point asked for. "
  "The reported order of two errors that fall as a power of the size is that power.",
  "inputs configurations", "all solutions, sizes, points, benchmark tables", "The tests read two benchmark points and compute no error.",
  [LS + "load_bench.py", "moving_mesh_transport/solver.py", SF + "main_functions.py"], [("benchmark tables", LS + "load_bench.py"), ("error norms", "moving_mesh_transport/solver.py"), ("order", SF + "main_functions.py")],
  GVG + " of whole runs with an uninterpreted benchmark; loader over symbolic tables", "the points and times are numbers, the solution and the tables symbols")
P("P28", "Built-in reference solutions solve the transport problem they stand for",
  "The manufactured solution, the blast wave and the steady Gaussian reference satisfy the transport equation, boundary flux and initial state of the solver's own opacity, source and mesh, on every smooth region, and the moving Gaussian reference attenuates along the particle's path. "
  "A reference that solves another problem turns every error measured against it into a number without meaning.",
  "inputs configurations", "all positions, times, directions, front speeds", "A reference is compared with nothing; only its equation tells whether it is right.",
  [SF + "run_functions.py", SC + "make_phi.py", SC + "opacity.py", SC + "sources.py"], [("references", SF + "run_functions.py"), ("opacity", SC + "opacity.py")],
  "symbolic differentiation of value graphs; equation residual must be the zero graph under the region's inequalities", "blast wave for five numeric direction and speed pairs")
P("P29", "Slab runs on mirror-symmetric problems commute with the mirror image",
  "In slab geometry, when source, opacity and mesh are mirror-symmetric, the initial state is its own mirror image, the mirror image of a state changes at the mirrored rate, and its reported flux is the reported flux read from right to left. "
  "The uncollided flux is even in position.",
  "inputs configurations", "all states, times, positions, opacity values, source strengths", "Upwinding and boundary handling are written twice, once per side; no test compares the two.",
  [SC + "rhs_class_1.py", SC + "numerical_flux.py", SC + "matrices.py", SC + "mesh.py", SC + "sources.py", SC + "uncollided_solutions.py", SC + "make_phi.py"],
  [("upwinding", SC + "numerical_flux.py"), ("rate of change", SC + "rhs_class_1.py"), ("mesh motion", SC + "mesh.py")],
  GVG + " of a whole run, evaluated on a state and on its mirror image; no formula of the scheme assumed", "16 scenarios of up to 4 cells and 4 angles; options (problem, switches, opacity, geometry, boundaries, sizes) crossed pair by pair; symmetric quadrature rules as symbols")
P("P30", "Solutions superpose: twice the source gives twice the flux",
  "Without thermal coupling the initial state, the rate of change and the reported flux are linear in the state and in the strengths of volume and boundary sources together. "
  "The solution of a sum of problems is the sum of their solutions, and a problem without source and initial flux stays at zero.",
  "inputs configurations", "all states, times, positions, opacities, strengths", "A clipped, squared or unscaled contribution looks plausible in any single run.",
  [SC + "rhs_class_1.py", SC + "sources.py", SC + "uncollided_solutions.py", SC + "numerical_flux.py", SC + "opacity.py", SC + "phi_class.py", SC + "make_phi.py", SF + "main_functions.py"],
  [("rate of change", SC + "rhs_class_1.py"), ("sources", SC + "sources.py"), ("boundary", SC + "numerical_flux.py")],
  GVG + " of a whole run; graphs at sums of states and strengths compared with sums of graphs", "19 scenarios, slab and sphere, small sizes; options (problem, switches, opacity, geometry, boundaries, sizes) crossed pair by pair")
P("P31", "Slab transport loses particles only by leakage and absorption on any moving mesh",
  "For any motion of the cell edges the rate of change of the total number of particles in a slab is the source minus absorption minus outflow through the two ends. "
  "A flux that is a polynomial of the cell's order in space evolves exactly as the transport equation says, whatever the cells' motion.",
  "inputs histories", "all states, edge positions and velocities, opacities, weights", "A wrong motion term conserves nothing only while the mesh moves, and by little.",
  [SC + "rhs_class_1.py", SC + "matrices.py", SC + "numerical_flux.py", SC + "phi_class.py", SC + "opacity.py", SC + "sources.py"],
  [("right-hand side", SC + "rhs_class_1.py"), ("cell matrices", SC + "matrices.py"), ("edge fluxes", SC + "numerical_flux.py")],
  GVG + " of the right-hand side; weighted sums compared with the integrated balance, polynomial states with exact projections", "up to 3 cells, 4 angles, order 3; constant opacity")
P("P32", "Whatever a run can reach exists and takes the arguments it is given",
  "In every configuration, the code reachable from the run entry points and the result loader refers only to modules, names, fields and methods that exist, passes each function the arguments it takes, takes results apart into as many parts as they have, and reads no variable that nothing can have assigned. "
  "No run dies, possibly after hours of integration, on a name that no input of the tests happens to evaluate.",
  "configurations histories", "all functions reachable by name from the entry points", "Most options and report paths are executed by no test, and Python looks names up only when it gets there.",
  ["moving_mesh_transport/solver.py", SF + "main_functions.py", SF + "run_functions.py", LS + "load_solution.py", LS + "save_output.py", LS + "load_bench.py", SC + "build_problem.py", SC + "mesh.py", SC + "functions.py"],
  [("entry points", SF + "run_functions.py"), ("run", "moving_mesh_transport/solver.py"), ("result loader", LS + "load_solution.py")],
  "lexical and import resolution, interprocedural inference of receiver classes, signature matching, may-assigned dataflow", "values of unknown origin are never judged; known finding: the wave finder")
NAF = [SF + "main_functions.py"]
P("P90", "Computed fluxes converge to the reference solutions at the design order",
  "Refining cells or orders on a smooth problem reduces the error against the reference solution at the order of the scheme.",
  "inputs configurations", "all smooth problems, sizes", "A limit over sizes and a numerical norm.", NAF, [("solution", SF + "main_functions.py")], "none", "not claimed")
P("P91", "The integrator keeps the error of each step within the configured tolerances",
  "The time integration error of a run is of the size of the configured tolerances, or the run reports failure.",
  "inputs configurations", "all problems, tolerances", "The error is a run-time quantity of a library integrator.", NAF, [("integration", SF + "main_functions.py")], "none", "not claimed")
P("P92", "Reported scalar fluxes stay non-negative up to the discretisation error",
  "With non-negative sources and initial fluxes, reported fluxes are non-negative up to the discretisation error.",
  "inputs configurations", "all problems", "Undershoots depend on the numerical solution.", [SC + "make_phi.py"], [("output evaluation", SC + "make_phi.py")], "none", "not claimed")
P("P93", "The tabulated sphere coefficients of the data files are the exact integrals",
  "Every number in the sphere coefficient files is the exact integral it stands for, to the stored precision.",
  "inputs", "all indices of the files", "The files are binary data that the repository does not ship.", [SF + "Chebyshev_matrix_reader.py"],
  [("coefficient reader", SF + "Chebyshev_matrix_reader.py")], "none", "not claimed")
P("P94", "Wave-tracking meshes stay ordered for every detected wave history",
  "Meshes that follow a detected wave front keep their edges in order for every front the detector may report.",
  "inputs histories", "all wave histories", "The history is measured from a numerical solution.", [SC + "mesh.py", SF + "wave_loc_estimator.py"], [("mesh that follows a wave", SC + "mesh.py")], "none", "not claimed")
na("P90", "a limit over sizes of a numerical norm: no finite abstract state bounds it; the consistency of each term of the scheme (P02, P05, P07, P14, P17) is claimed instead")
na("P91", "the step error is a run-time quantity inside SciPy; that the configured method and tolerances reach the integrator is claimed (P21), and that the right-hand side is a pure function (P24)")
na("P92", "undershoots of a discontinuous Galerkin solution depend on the numerical solution; no sound static bound in reach (and the scheme has no limiter)")
na("P93", "binary data, partly not shipped; the reader, the index order and the assembly are claimed (P06), and the tables that are code (P04)")
na("P94", "the wave history is measured at run time; ordering is claimed for the mesh families whose motion is a formula (P13)")
