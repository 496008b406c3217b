"""The properties, as data.  tools/gen_manifest.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe, level="exploration", note="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, observe=observe, level=level, note=note, hook=hook))


p("C01", "No memory error or undefined behaviour",
  "Setting up, assembling residuals and Jacobians of, time-stepping, diagnosing and destroying any flow problem the library accepts performs no out-of-bounds or use-after-free access, null call or other undefined operation, and its results do not depend on what unwritten memory happens to hold. This covers Richards flow in all five finite-volume formulations, thermal and salinity modes, every boundary kind with or without boundary functions, and one or several processes.",
  "inputs configurations histories", "every mesh kind and size down to one cell thick, option combination, boundary function present or absent, mode, formulation, process count, sequence of steps with failures",
  "Memory errors corrupt silently, and only for particular connectivity, one-cell-thick meshes or partitions; the tests run a few meshes without instrumentation.",
  "src/fv/share/tdymeshplex.c src/fv/mpfao/tdympfao.c src/fv/mpfao/tdympfao_th_ts.c src/fv/fvtpf/tdyfvtpf.c src/tdycore.c src/tdyti.c",
  [("connectivity arrays of the mesh", "src/fv/share/tdymeshplex.c"), ("allocation of transmissibilities", "src/fv/mpfao/tdympfao.c")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "recorded residuals, Jacobians and diagnostics with plain and with patterned memory"],
  note="ASan+UBSan build of the library over generated scenarios; differential runs with pattern-filled stack and heap")

p("C03", "Water mass is conserved",
  "In a finite-volume Richards run, what leaves one cell through an interior face enters its neighbour: with no-flow boundaries the assembled residual summed over all cells equals the rate of change of stored water (density x porosity x saturation x volume) and nothing else, for MPFA-O (SNES and TS forms) and FV-TPF. "
  "Over a time-stepping run with closed boundaries the total stored water computed independently from the accepted states does not drift beyond the nonlinear solver's tolerance.",
  "inputs configurations histories", "every mesh (graded, perturbed, column-shifted boxes, prisms), permeability (isotropic, diagonal, full tensor), porosity, residual saturation, water model, gravity, pressure field wet or dry, process count, step history",
  "The tests compare a few cells of a few fixed runs with stored numbers; a flux added to one cell and not taken from another shows only for particular orientations, partitions or dry cells.",
  "src/fv/mpfao/tdympfao_snes.c src/fv/mpfao/tdympfao_ts.c src/fv/fvtpf/tdyfvtpf.c src/tdyti.c",
  [("face fluxes added to the up cell and taken from the down cell", "src/fv/mpfao/tdympfao_ts.c TDyMPFAOIFunction_Vertices; src/fv/fvtpf"), ("accumulation from stored previous mass", "src/fv/mpfao/tdympfao_snes.c")],
  ["residual vector of TDySetSNESFunction / TDySetIFunction", "accepted solutions of TDyTimeIntegratorRunToTime"],
  note="independent mass balance from recorded states and residuals on random meshes, materials and process counts")

p("C04", "Fluxes follow Darcy's law exactly where the schemes are exact",
  "Where a scheme is exact, the assembled flow residual equals the balance of Darcy fluxes computed independently: FV-TPF on every mesh for its two-point formula with harmonic-type permeability averaging, upstream mobility, averaged density and gravity, with each boundary face's own condition; MPFA-O equals the two-point value on rectangular boxes with isotropic or diagonal permeability. "
  "With uniform mobility MPFA-O with Dirichlet boundaries reproduces linear pressure fields exactly for any full permeability tensor, and fields that are linear on each side of a permeability jump, on any mesh with plane faces.",
  "inputs configurations", "every plane-faced mesh, permeability tensor field, pressure field (upstream direction of every face, wet/dry), gravity, water model, boundary kind, process count",
  "The transmissibility of a face depends on its geometry, orientation and neighbours; tests run a handful of uniform boxes.",
  "src/fv/mpfao/tdympfao.c src/fv/mpfao/tdympfao_ts.c src/fv/mpfao/tdympfao_snes.c src/fv/mpfao/tdympfao_utils.c src/fv/fvtpf/tdyfvtpf.c src/fv/share/tdymeshplex.c",
  [("transmissibility of interaction regions", "src/fv/mpfao/tdympfao.c"), ("two-point flux", "src/fv/fvtpf/tdyfvtpf.c")],
  ["residual vector, assembled by the library for supplied states"],
  note="residual against an independent reference flux computed from the recorded geometry and supplied fields")

p("C05", "Water at rest stays at rest",
  "With water of constant density, a hydrostatic pressure field with matching (or closed) boundaries gives zero flow residual for any gravity value, saturated or not: on boxes with isotropic (MPFA-O also diagonal) permeability varying from cell to cell for MPFA-O and FV-TPF, on skewed columns and prisms for FV-TPF with isotropic permeability and for MPFA-O with uniform isotropic permeability. Time stepping from such a state leaves it unchanged.",
  "inputs configurations histories", "every mesh of the stated kinds, tensor, gravity, water level (saturated, unsaturated, through the water table), boundary kind, number of steps, process count",
  "Balance of the pressure gradient and gravity must hold face by face whatever the permeability; the tests have no hydrostatic case at all.",
  "src/fv/mpfao/tdympfao.c src/fv/mpfao/tdympfao_ts.c src/fv/fvtpf/tdyfvtpf.c",
  [("gravity discretisation", "src/fv/mpfao/tdympfao.c ComputeGravityDiscretization"), ("gravity term in the two-point flux", "src/fv/fvtpf/tdyfvtpf.c")],
  ["residual at the hydrostatic state", "states after time steps"],
  note="scaled residual at rest <= 1e-10; drift after steps")

p("C06", "The Jacobian is the derivative of the residual",
  "For Richards flow the assembled Jacobian equals the derivative of the assembled residual in every entry, away from upstream switches: MPFA-O in its SNES and TS forms (Dirichlet and seepage boundaries with a boundary-pressure function, closed boundaries) and FV-TPF (Dirichlet, seepage, closed and mixed boundaries). In thermo-hydro mode with closed boundaries so do the derivatives of both balances with respect to pressure, and of energy with respect to temperature. "
  "This holds for constant, exponential and Batzle-Wang water, saturated and unsaturated states, and any process count.",
  "inputs configurations", "every mesh, tensor, water model, state, boundary kind, time step, process count",
  "A wrong derivative only slows or breaks Newton's method in some states, so runs that converge to stored numbers do not show it.",
  "src/fv/mpfao/tdympfao_ts.c src/fv/mpfao/tdympfao_snes.c src/fv/mpfao/tdympfao_th_ts.c src/fv/fvtpf/tdyfvtpf.c src/materials/tdyeos.c src/materials/tdycharacteristiccurves.c",
  [("analytic Jacobian assembly", "TDyMPFAOSNESJacobian, TDyMPFAOIJacobian, TDyFVTPFSNESJacobian")],
  ["Jacobian and residual assembled at supplied states"],
  note="every entry against central differences of the residual; entries at an upstream switch are skipped and counted")

p("C10", "Results do not depend on the number of processes",
  "For the same problem, the residual, the Jacobian and the diagnostics (in natural order, in the same order) on any number of processes equal those on one process up to rounding, and time-stepping runs end in the same state up to solver tolerance: MPFA-O (SNES and TS forms), FV-TPF, and the TH mode of MPFA-O.",
  "inputs configurations", "every mesh with plane faces, any renumbering of it, number of processes (2 to 6) and the partition it gives, materials, states, boundary kinds",
  "Which faces and vertices lie on a partition boundary, and in which order a process sees them, depends on mesh and process count; tests use one or two counts for a few meshes.",
  "src/tdydiscretization.c src/fv/share/tdymeshplex.c src/fv/share/tdymesh.c src/fv/mpfao/tdympfao.c src/fv/mpfao/tdympfao_snes.c src/fv/mpfao/tdympfao_ts.c src/fv/mpfao/tdympfao_th_ts.c src/fv/fvtpf/tdyfvtpf.c",
  [("distribution with one layer of ghost cells", "src/tdydiscretization.c"), ("assembly over local and ghosted vertices and faces", "src/fv/mpfao, src/fv/fvtpf")],
  ["residual, Jacobian, diagnostics, end states of runs with different process counts"],
  note="runs on 2-6 processes against the run on one process, cell by cell")

p("C13", "The time integrator's clock is true",
  "Every accepted step starts where the previous one ended, from its solution, and lasts what the solver was told; step sizes respect the initial size, maximum, growth and reduction factors, a run to a time ends exactly there, and a failed nonlinear solve is retried from the same time with a reduced step and the state of the last accepted step. Each accepted step of a two-point run satisfies the implicit balance of its own start and end states over its own length; a step that cannot be completed ends the run with an error.",
  "inputs configurations histories fault_sequences", "every sequence of synchronisation times, step-size settings, sequence of solver failures injected at any attempt, problem, process count",
  "The interplay of cuts, growth, maximum and synchronisation times depends on the whole step history; tests run a handful of steps with no failure.",
  "src/tdyti.c src/tdycore.c src/fv/fvtpf/tdyfvtpf_snes.c",
  [("step loop", "src/tdyti.c"), ("state of the previous step", "src/tdycore.c TDyPreSolveSNESSolver, TDyTimeCut")],
  ["every nonlinear solve intercepted at link time: its start state, guess, time, length and outcome", "clock after each TDyTimeIntegratorRunToTime"],
  note="online monitor of every nonlinear solve (interposed SNESSolve, injected failures) plus an independent balance of each accepted step")

p("C15", "Every way of giving a material gives the same problem",
  "Giving a material property as a constant or as a spatial function with the same values, and giving an isotropic permeability, conductivity or diffusivity as isotropic, diagonal or full tensor (a diagonal one as diagonal or full), produces the same residual, Jacobian and diagnostics. "
  "This holds for porosity, permeability, residual saturation, soil density and heat, conductivity, molecular weight and diffusivity in the Richards, TH and salinity modes.",
  "inputs configurations", "every material value or field, way of giving it, discretization (MPFA-O in SNES, TS and DAE forms, FV-TPF), mode, mesh, process count",
  "Each setter is a separate piece of code; tests use one way for one field in each mode.",
  "src/materials/tdymaterialproperties.c src/tdycore.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c",
  [("material setters and evaluation at cell centroids", "src/materials/tdymaterialproperties.c")],
  ["residual, Jacobian and diagnostics at supplied states"],
  note="pairs of runs of one problem with its materials given differently")

p("C28", "Results do not depend on the frame or numbering of the mesh",
  "Translating the whole problem, rotating it about the vertical axis (tensors included), or renumbering the cells, faces and vertices of its mesh leaves residual, Jacobian and diagnostics unchanged cell by cell, up to rounding.",
  "inputs configurations", "every plane-faced mesh, rigid motion about the vertical, renumbering, permeability tensor field, state, discretization (MPFA-O SNES, TS and TH forms, FV-TPF)",
  "The tests run meshes aligned with the axes and numbered as the generator made them; sign and orientation mistakes cancel there.",
  "src/fv/share/tdymeshplex.c src/fv/share/tdymesh.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c",
  [("subcell geometry and face orientation", "src/fv/share/tdymeshplex.c, src/fv/mpfao/tdympfao.c")],
  ["residual, Jacobian and diagnostics at supplied states"],
  note="metamorphic: a problem against its moved or renumbered copy")

p("C29", "Alternative formulations of a problem agree",
  "The alternative formulations of a Richards problem in MPFA-O give every cell the same flow term: the backward-Euler (SNES), TS, transient-variable and DAE forms, once each form's own storage term is taken off, and the steady linear system for constant water without gravity. The DAE form's algebraic equation is exactly the difference between the mass unknown and the stored mass, and two-point interaction-region weights equal the full ones on rectangular boxes with uniform diagonal permeability.",
  "inputs configurations", "every plane-faced mesh, permeability (isotropic, diagonal, full tensor), water model, gravity, pressure field wet or dry, boundary kind, process count",
  "Each formulation is a separate copy of the code; tests exercise two of them on a few problems and never against one another.",
  "src/fv/mpfao/tdympfao_snes.c src/fv/mpfao/tdympfao_ts.c src/fv/mpfao/tdympfao_ts_dae.c src/fv/mpfao/tdympfao_ts_transientvar.c src/fv/mpfao/tdympfao_steady.c src/fv/mpfao/tdympfao.c",
  [("flow terms of each formulation", "src/fv/mpfao/tdympfao_snes.c, _ts.c, _ts_dae.c, _ts_transientvar.c, _steady.c")],
  ["residuals and linear systems assembled at supplied states"],
  note="differential: the residuals of five formulations of one problem, cell by cell")

p("C30", "The timing profile counts what was called and measuring changes nothing",
  "With timers enabled every run gives the results it gives without them, and the profile it leaves holds, for every process, as many calls of each library function as were made, in the stage they were made in, with times that are not negative and not longer than the run. Its footer names the mode, the discretization, the number of processes and the number of cells of the whole mesh, each counted once.",
  "programs configurations", "every mode, discretization and call sequence, functions called any number of times, mesh, process count, one or several sessions in a program",
  "No test looks at a profile; a timer left running, a stage left open or a cell counted twice does not fail a run.",
  "src/tdytimers.c include/tdytimers.h src/tdycore.c src/tdydriver.c src/fv/fvtpf/tdyfvtpf_snes.c",
  [("timers, stages and footer of the profile", "TDyWriteTimingProfile, TDySetTimingMetadata")],
  ["the profile a run leaves", "vectors and matrices with and without timers"],
  note="accounting: rows of the profile against the calls of the script; differential: with and without timers")

p("C07", "Saturation and relative permeability follow their curves",
  "Liquid saturation in every cell is the van Genuchten value of that cell's pressure with the configured parameters and the cell's own residual saturation (1 when saturated), and fluxes carry the Mualem relative permeability of the effective saturation. "
  "The curve models (van Genuchten and Gardner saturation, Mualem with its smooth end and Irmay relative permeability) return value and derivatives of their formulas at every point, with the parameters given for that point, whatever mixture of models and subset of points is set, reset or queried.",
  "inputs histories configurations", "every pressure from deep suction to full saturation, residual saturation field, curve parameter, assignment of models and parameters to points, order of setting and querying them",
  "The formulas are smooth and a wrong branch, index or derivative shows only for certain points, mixtures of models or states; tests use uniform parameters.",
  "src/materials/tdycharacteristiccurves.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c",
  [("curve models per point", "src/materials/tdycharacteristiccurves.c"), ("state update", "TDyUpdateState_Richards_MPFAO, TDyUpdateState_Richards_FVTPF")],
  ["saturation diagnostics and residuals of simulations", "values returned by the curve models for scripted sequences of settings and queries"],
  note="reference curves, derivatives by complex step, against simulations and scripted evaluations")

p("C08", "Water density and viscosity follow their models",
  "Density in every cell is the value of the chosen model (constant, exponential in pressure, Batzle-Wang in pressure, temperature and salinity) at that cell's state, with the salinity taken from its concentration. "
  "The density and viscosity models return their formula's value, and the density models its first and second pressure derivatives, at any pressure, temperature and salinity in range.",
  "inputs configurations", "every pressure, temperature and salinity in range, choice of model, mode, process count",
  "A wrong coefficient or derivative shows only away from reference conditions; tests run near them with two of the models.",
  "src/materials/tdyeos.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c",
  [("water property models", "src/materials/tdyeos.c")],
  ["liquid mass diagnostics of simulations", "values returned by the models at scripted points"],
  note="published formulas, derivatives by complex step, against simulations and scripted evaluations")

p("C11", "Cell data keep the order of the mesh, in vectors and in files",
  "A vector in natural order has the cells in the order of the mesh as it was given, whatever the partition: initial conditions given, previous solutions and diagnostics read back, and both directions of the conversion. "
  "Porosity, permeability and initial states read from HDF5 or PETSc binary files are assigned to the cells in that order, and the files written hold each accepted state that is due, with its saturation, in that order under its time. "
  "The XDMF file names only datasets that exist, with their sizes.",
  "inputs configurations", "every mesh and numbering, number of processes, number of unknowns per cell, field in a file, output interval, failed steps in between",
  "On one process the orders coincide, and a permuted field still has the right minimum, maximum and mean; tests read and write files on one process only.",
  "src/tdyio.c src/tdycore.c src/tdydiscretization.c src/tdydriver.c src/tdyti.c",
  [("natural-global scatters", "TDyGlobalToNatural, TDyNaturalToGlobal, TDySetInitialCondition"), ("reading and writing of files", "src/tdyio.c")],
  ["entries of natural and global vectors and of files, identified by the coordinates of the cell they belong to"],
  note="position-coded vectors, files written and read by an independent HDF5 program, runs compared with fields given as functions")

p("C12", "A run restarted from a checkpoint continues the run",
  "With checkpoints enabled, a run of the nonlinear-solver integrator leaves a file for every step that is due and for the end of each segment, holding the accepted state in the order of the mesh and the number of the step, under a name that gives its time. "
  "A run started from that file begins with exactly the saved state on any number of processes, and continuing it reaches the state of the uninterrupted run.",
  "inputs crash_points configurations", "every mesh, numbering, number of processes of the writing and of the reading run, checkpoint interval, segment boundary at which the run stops, failed steps in between",
  "A restart that loses digits, permutes cells or saves a state that was rejected looks plausible; the tests write no checkpoint that is read back.",
  "src/tdyio.c src/tdyti.c src/tdydriver.c src/tdycore.c",
  [("writing of checkpoints", "TDyIOOutputCheckpoint"), ("reading of the initial state", "TDyIOReadIC and the options -ic_file, -ic_dataset")],
  ["checkpoint files, read by an independent HDF5 program", "initial and accepted states of the restarted run"],
  note="bitwise comparison of files with recorded accepted states and of restarted initial states; continuation within solver tolerance")

p("C21", "The vertex-quadrature mixed method assembles its scheme",
  "For every mesh of quadrilaterals or hexahedra with plane faces, permeability tensor, boundary pressure and source, the assembled cell-centred system equals the one obtained by eliminating the velocities of each vertex's cells, whatever the quadrature setting and however often it is assembled. "
  "The transient residual equals storage (porosity x change of saturation with pressure x rate x volume) plus outflow by the same velocities under the relative permeability, less the source.",
  "inputs configurations", "every mesh (2-D and 3-D, perturbed, sheared, graded, far from the origin), tensor field, boundary and source field, state, number of processes",
  "The tests compare four smooth problems on one mesh each with stored norms; a wrong coefficient in one corner or on several processes changes them below their tolerance or not at all.",
  "src/fe/tdywy.c src/fe/tdyfe.c src/tdycore.c src/materials/tdymaterialproperties.c",
  [("local elimination at vertices", "src/fe/tdywy.c"), ("cell corners and their Jacobians", "src/fe/tdyfe.c"), ("boundary faces of the mesh", "src/tdycore.c")],
  ["assembled matrix and right-hand side", "transient residual at supplied states"],
  note="every matrix entry, right-hand side and residual against an independent assembly from the recorded corners")

p("C22", "The Brezzi-Douglas-Marini method assembles its weak form",
  "For every mesh of quadrilaterals or hexahedra with plane faces, permeability tensor, boundary pressure and source, the assembled mixed system equals the weak form of Darcy flow in that velocity space, by full or by vertex quadrature as chosen, and assembling again gives the same system. "
  "With full quadrature a linear pressure field under a constant permeability tensor is reproduced exactly.",
  "inputs configurations", "every mesh (2-D and 3-D, perturbed, sheared, graded, far from the origin), tensor field, boundary and source polynomial, quadrature, number of processes",
  "The tests compare norms of four smooth problems in two dimensions with stored numbers; the three-dimensional space and the vertex quadrature are never run.",
  "src/fe/tdybdm.c src/fe/tdyfe.c src/materials/tdymaterialproperties.c src/tdycore.c",
  [("velocity space and local matrices", "src/fe/tdybdm.c"), ("mapping of reference cells", "src/fe/tdyfe.c")],
  ["assembled matrix and right-hand side", "solution of the assembled system for linear fields"],
  note="every entry against an independent assembly with a basis derived from its nodal conditions; patch test")

p("C09", "The finite-volume mesh is the mesh that was given",
  "On every process the cells, faces and vertices the finite-volume methods compute on are those of the given mesh: each cell is owned once, with its exact volume and centroid, each face has its exact area, unit normal and centroid and lies between exactly its two cells, or on the boundary, and each vertex lists exactly its cells and faces. "
  "The parts a face is split into add up to it, gradients at cell corners are exact for linear fields, two-point distances and directions follow from the centroids, and the boundary faces given to the user are exactly those of the domain.",
  "inputs configurations", "every mesh of hexahedra or prisms with plane faces (graded, perturbed, sheared columns), numbering, position far from the origin, number of processes and partition",
  "Connectivity errors appear only for particular numberings and partitions, and geometry errors only on distorted cells; the tests look at a few uniform boxes.",
  "src/fv/share/tdymeshplex.c src/fv/share/tdymesh.c src/tdycore.c",
  [("mesh derived from the DMPlex", "TDyMeshCreateFromPlex in src/fv/share/tdymeshplex.c"), ("boundary faces", "TDyGetBoundaryFaces")],
  ["cells, faces, vertices and corners of the library's mesh structure", "faces returned by TDyGetBoundaryFaces"],
  note="every entity of the mesh against the given mesh and independent polyhedron geometry")

p("C16", "Diagnostics report what the solution holds",
  "After any step or evaluation, in every mode and on any number of processes, the saturation, liquid mass and liquid pressure a user obtains are those of each cell's solution, in the order of the mesh: the saturation by the retention curve, the mass as porosity x saturation x density x volume. "
  "In a closed domain the masses add up to the same total throughout a run of the nonlinear-solver integrator, failed steps included.",
  "inputs configurations fault_sequences", "every mesh, numbering, partition, mode, material and pressure field, sequence of steps with failures",
  "The tests print or ignore the diagnostics; a stale, misordered or wrongly scaled field still looks plausible.",
  "src/tdycore.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c",
  [("update of the diagnostics", "TDyUpdateDiagnostics_MPFAO and TDyUpdateDiagnostics_FVTPF"), ("scatter to natural order", "TDyGetLiquidSaturation, TDyGetLiquidMass and TDyGetLiquidPressure")],
  ["saturation, mass and pressure returned by the public functions", "solution vectors they belong to"],
  note="every cell value against an independent evaluation of the recorded solution; total mass over closed runs")

p("C17", "What the user selects on the command line takes effect",
  "Selecting a mode, discretization, constitutive model, material value, boundary condition, mesh, initial state, output interval or numerical scheme by an option gives the same results as selecting it through the public functions, and an option overrides what the program had chosen. "
  "No documented option is silently ignored, and an initial state or a partition into connected regions read from a file reaches every cell it belongs to on any number of processes.",
  "configurations inputs", "every option and value, mode, discretization, mesh, number of processes",
  "Each test runs one fixed combination of options; an option that is dropped, or applied before something else overwrites it, leaves results that still look plausible.",
  "src/tdycore.c src/tdydriver.c src/tdyti.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c src/fv/share/tdymeshplex.c src/fe/tdybdm.c src/fe/tdywy.c",
  [("reading the options", "TDySetFromOptions"), ("options of an implementation", "TDySetFromOptions_MPFAO, TDySetFromOptions_FVTPF, TDySetFromOptions_BDM and TDySetFromOptions_WY"), ("initial states", "TDyRichardsInitialize, TDyTHInitialize and TDySalinityInitialize")],
  ["residuals, Jacobians and solutions of paired runs", "initial states", "names of the output files"],
  note="two runs of the real code, one with the option and one with the public function, must agree in every recorded number; runs with and without an option must differ where it matters")

p("C20", "The regression file states what the solution is",
  "For every mode, number of processes and number of sampled cells, the regression file holds for each unknown the maximum, minimum and mean over all cells of the solution, and the values of the sampled cells as they are in the solution. "
  "Every process contributes the requested number of distinct cells of its own, or as many as every process has.",
  "inputs configurations", "every mesh, partition, mode, number of sampled cells per process, end time",
  "The tests compare one file per demo with a stored one within a tolerance; a file that samples the wrong cells or unknowns is taken as the new reference.",
  "src/tdyregression.c src/tdycore.c src/tdyti.c",
  [("sampling of cells and writing", "src/tdyregression.c"), ("call at the end of a run", "TDyOutputRegression in src/tdycore.c")],
  ["regression files", "solution vectors they were written for"],
  note="every number of the file against the recorded solution vector")

p("C02", "Dycores can be created, used and destroyed any number of times",
  "Creating, setting up, using and destroying dycores, broken off after any call of a valid sequence, succeeds every time, clears the handle, returns all memory taken from the allocator, and gives the same results in every cycle. "
  "The same holds when the library is finalized and initialized again between cycles, when several dycores overlap, and with checkpoints, output and regression files enabled.",
  "histories configurations inputs", "every flow mode, formulation and use (SNES, TS, steady, finite-element system, driver and time integrator), point at which the life of the dycore is broken off, process count, overlap of several dycores, re-initialization in between",
  "The demos create one dycore and exit, so what is not released, or survives in static storage, is never noticed.",
  "src/tdycore.c src/tdydiscretization.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c src/fe/tdywy.c src/fe/tdybdm.c src/materials/tdymaterialproperties.c",
  [("destruction of a dycore", "TDyDestroy in src/tdycore.c"), ("destruction of formulations", "TDyDestroy_MPFAO in src/fv/mpfao/tdympfao.c"), ("finalization", "TDyFinalize in src/tdycore.c")],
  ["error code of every call", "bytes PETSc's allocator holds after every cycle", "vectors and matrices computed in every cycle"],
  note="memory accounting after each of five identical cycles, exact to the byte; results compared between cycles")

p("C18", "Misuse and unsupported combinations are refused without damage",
  "Set-up calls out of their documented order, formulations and solvers a mode does not support, diagnostics before set-up, unknown option values, function names and missing files, and meshes that cannot be used each return an error on every process instead of crashing or being ignored. "
  "A dycore whose calls were refused, completed with valid calls, or a new dycore created after a refused set-up, gives the same results as without the refused calls.",
  "histories configurations inputs", "every valid sequence of calls with any excluded calls interleaved; every combination of mode, formulation, solver and option value, mesh kind and file that the library excludes",
  "Tests run valid sequences only; an error that is not returned, or a refused setting that sticks, needs calls no demo makes.",
  "src/tdycore.c src/tdydriver.c src/tdyio.c src/tdyregression.c src/fv/share/tdymeshplex.c",
  [("set-up flags", "src/tdycore.c"), ("supported combinations", "TDySetDiscretization, TDySetIFunction, TDySetSNESFunction in src/tdycore.c; src/tdydriver.c"), ("mesh requirements", "TDyMeshCreateFromPlex in src/fv/share/tdymeshplex.c")],
  ["error code of every call on every process", "residuals, Jacobians and solutions computed afterwards"],
  note="random histories against a model of which calls are excluded; results against runs without the excluded calls")

p("C19", "The function registry, start and shutdown follow their history",
  "Looking up a name gives the function last registered under it since the library was initialized, and an error for any other name; selecting a boundary or source function by name has the effect of setting that function, and selecting an unknown name changes nothing. "
  "Functions registered for shutdown run exactly once each, last registered first; the library says it is initialized exactly between initialization and finalization, and initializing twice is harmless.",
  "histories", "every sequence of registrations (including overwriting, long and similar names whose storage is reused), lookups, selections, shutdown functions in any number, initializations and finalizations",
  "Demos register one or two functions and never finalize twice; the order and the re-initialization are not observed by any test.",
  "src/tdycore.c src/tdyconditions.c src/tdytimers.c",
  [("registry of functions", "TDyRegisterFunction, TDyGetFunction in src/tdycore.c"), ("shutdown functions", "TDyOnFinalize, TDyFinalize in src/tdycore.c")],
  ["function returned by every lookup", "order of shutdown functions", "residuals with selected functions"],
  note="random histories against a model of the registry and the shutdown list")

p("C23", "Thermo-hydro mode balances energy and conducts heat by Fourier's law",
  "In thermo-hydro mode every cell's residuals are the rates of water and energy storage plus the outflow of water (down the pressure gradient, upstream mobility), of the enthalpy it carries, and of heat conducted by Fourier's law through anisotropic, heterogeneous rock. "
  "A linear temperature gives exact heat fluxes on any mesh with plane faces; in a closed domain fluxes cancel exactly; time steps of pure conduction are implicit steps of the heat equation.",
  "inputs configurations", "every mesh, soil, conductivity, state, rate of change, boundary temperature, water model and process count",
  "One stored run of one small problem exercises the mode; its residual mixes storage, advection and conduction, and any of them may be wrong in other meshes, tensors or states.",
  "src/fv/mpfao/tdympfao_th_ts.c src/fv/mpfao/tdympfao.c src/fv/mpfao/tdympfao_utils.c src/tdyth.c src/materials/tdyeos.c",
  [("residual of the mode", "TDyMPFAOIFunction_TH"), ("conductive transmissibilities", "ComputeTransmissibilityMatrix, ComputeGMatrix"), ("boundary temperature", "TDyMPFAO_SetBoundaryTemperature")],
  ["residuals recorded at supplied states and rates, temperatures after every time step"],
  note="compared with an independent two-point model, with exact fluxes of linear temperatures, with sums over closed domains, and with an implicit heat step")

p("C24", "Salinity mode conserves water and salt: storage, advection and Fickian diffusion",
  "In salinity mode every cell's residuals are the change of the water and of the dissolved salt it stores plus the outflow of water, of the salt that water carries from its upstream side, and of salt diffused by Fick's law through anisotropic, heterogeneous rock, with density and viscosity at the local salinity. "
  "Water of one salinity keeps it, a linear concentration diffuses with the exact flux on any mesh with plane faces, and a closed domain conserves both in every time step; with water of constant density the water balance is that of Richards flow.",
  "inputs configurations", "every mesh, soil, permeability, diffusivity, state, previous state, boundary concentration, water model and process count",
  "No test runs this mode at all; its residual mixes storage, advection and diffusion, any of which may be missing or wrong between some cells only.",
  "src/fv/mpfao/tdympfao_snes_salinity.c src/fv/mpfao/tdympfao.c src/fv/mpfao/tdympfao_utils.c src/tdysalinity.c src/materials/tdyeos.c",
  [("residual of the mode", "TDyMPFAOSNESFunction_Salinity"), ("diffusive transmissibilities", "ComputeTransmissibilityMatrix, ComputeGMatrix"), ("boundary concentration", "TDyMPFAO_SetBoundarySalineConcentration"), ("state at a concentration", "TDyUpdateState_Salinity_MPFAO")],
  ["residuals recorded at supplied states, states after time steps"],
  note="compared with an independent two-point model, Richards residuals, exact fluxes of linear concentrations, sums over closed domains and amounts held before and after steps")

p("C25", "Calls made from Fortran do what the same calls made from C do",
  "A problem set up, assembled, advanced and reported through the Fortran interface gives the same residuals, matrices, solutions, diagnostics, files and refusals as the same calls made from C. A spatial function given from Fortran, directly or registered and selected by a name of any length, is called for exactly the properties it was given for, with the coordinates of the right points, however many functions of either kind were given and in whatever order; selecting a name that was never registered is an error, and so is an error code returned by such a function.",
  "programs histories", "every sequence of Fortran calls, number and order of real and integer functions, names, dycores, processes",
  "The Fortran tests use two or three functions in one fixed order and compare a few numbers with stored ones.",
  "src/f90-mod/tdycoref.c src/f90-mod/tdycoremod.F90 src/f90-mod/tdycore.h src/tdycore.c",
  [("stubs and wrapped functions", "src/f90-mod/tdycoref.c"), ("Fortran function tables", "src/f90-mod/tdycoremod.F90")],
  ["error code of every call", "vectors and matrices", "calls of each function and their points", "regression files"],
  note="twin programs in Fortran and C carry out the same generated script of calls")

p("C27", "Dycores do not influence each other",
  "Several dycores in one process, of the same or different modes and formulations, give each exactly the results and error codes it gives in a process of its own, however their calls are interleaved and whether or not others have been destroyed. Running the same sequence again gives the same results.",
  "schedules histories configurations", "every pair or triple of modes, formulations, meshes, materials and settings; every interleaving of their calls",
  "No test creates two dycores; state shared through static variables shows only when their calls interleave.",
  "src/tdycore.c src/fv/mpfao/tdympfao.c src/fv/fvtpf/tdyfvtpf.c src/fv/share/tdymeshplex.c src/fe/tdywy.c src/fe/tdybdm.c src/tdyti.c",
  [("per-dycore state", "struct _p_TDy in include/private/tdycoreimpl.h"), ("construction of meshes", "src/fv/share/tdymeshplex.c")],
  ["error code of every call", "every vector and matrix recorded, compared with runs in processes of their own"],
  note="interleaved runs compared with isolated runs of the real code")

p("C32", "Flow on a PFLOTRAN mesh is the two-point balance of the file's cells",
  "On a mesh read from a PFLOTRAN file (hexahedra, prisms and mixtures of both, numbered in any order), the residual of every cell, reported in the order of the file, is its storage change plus the two-point fluxes to the cells sharing a face with it, with materials evaluated at that cell's centre, and the Jacobian is its derivative. The same holds on any number of processes; conditions given for the boundary are applied; and a dycore on such a mesh returns all its memory when destroyed.",
  "inputs configurations", "every conforming mesh of hexahedra and prisms, numbering of cells, vertices and vertices within a cell, number of processes and the partition, materials, states",
  "Partitioning, duplicate-face removal, neighbour lookup and local numbering all depend on the order of the file and the partition; no test reads such a mesh with flow on it.",
  "src/fv/share/tdyugrid.c src/fv/share/tdyugdm.c src/fv/share/tdymeshcustom.c src/fv/fvtpf/tdyfvtpf.c src/tdydiscretization.c",
  [("reading, partitioning and renumbering", "src/fv/share/tdyugrid.c"), ("faces, areas, distances", "src/fv/share/tdymeshcustom.c"), ("orders and scatters", "src/fv/share/tdyugdm.c")],
  ["residual and Jacobian on generated files, in file order", "memory held after each life of a dycore"],
  note="residuals and Jacobians on generated mesh files against a balance computed from the file alone")
