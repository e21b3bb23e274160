def add(*a, **k): TABLE.append(P(*a, **k))
LIM = "Exhaustive on the small model instances; on the real code, every replayed call is compared with the specification's value, so the assurance is bounded by the scenarios explored. Trusts TLC, the IEEE arithmetic overrides in java/vt and the harness."

add("C01", "Time series containers keep, interpolate and reject exactly as defined",
 "A time series returns exactly the stored row at its points in time, linear interpolation between neighbouring points, and an error outside its range (beyond a tolerance of 1e-10); owning, mapped and read-only mapped series agree on this. Assignments, bulk writes, copies, moves and resampling transfer all values, change nothing else, and operations on differing structure, wrong sizes, invalid indices or unsorted time points are rejected without changing anything.",
 ["inputs", "histories"], "all sequences of operations on several containers that may share storage, all time points and values",
 "The tests call each operation once on one hand-made container; aliasing, rejected operations in the middle of a history, and the tolerance at both ends are never combined.",
 [IV], [("evaluation, assignment and structure checks", IV)], "Interp", LIM,
 state=[("containers", "time points, row width, values or the storage they map")], observe=["public interface of the containers"])
add("C02", "Time grids cover the requested interval exactly",
 "Simulation, control and constraint time grids start at the start time, end at the end time, are strictly increasing and equidistant, with the smallest number of points for which the step does not exceed the requested width (or exactly the requested number of points). Requests that cannot be met (empty or reversed interval, non-positive step or number, a single point) are rejected.",
 ["inputs", "configurations"], "all start and end times, step widths and numbers of points",
 "Tests use two round step widths; whether a grid reaches the end within the tolerance depends on the rounding of each step width.",
 [IV, S + "Auxillary/Timedata/Timedata.cpp", GH], [("grid construction", IV), ("time data", S + "Auxillary/Timedata/Timedata.cpp"), ("control grid", GH)], "TimeGrid", LIM)
add("C03", "The nonlinear solver's verdict can be trusted",
 "When the equation solver reports success, the vector it leaves solves the equations within the tolerance, and the reported residual is the norm of the equations there; otherwise it reports failure after exhausting its iterations or throws. It never uses more than the allowed iterations, reports none for an already solved problem, and solves every regular linear system in one step.",
 ["inputs", "histories"], "all systems of equations, starting points, tolerances and iteration limits, with new or reused Jacobian structure, and sequences of solves with one solver",
 "Tests solve a handful of well-behaved systems; non-convergence, singular or NaN-producing systems and solver reuse are not covered.",
 [NS], [("damped Newton iteration", NS)], "Newton", LIM)
add("C04", "Time stepping passes on only converged states, in order",
 "A simulation that returns has stored the initial state and then for each time point a state that solves the equations for exactly this step within the tolerance, given the stored previous state and the control interpolated at the new time. Each step is prepared before it is solved, in ascending order, and a step that fails is retried as configured from the last accepted state; if it never converges the simulation fails instead of returning.",
 ["histories", "fault_sequences", "inputs"], "all step sequences and all patterns of solver failures, retry settings and solver modes",
 "Tests never make a solver attempt fail, so the retry path, its starting point and its give-up are not executed.",
 [TE, NS], [("step loop and retries", TE)], "TimeStepping", LIM)
add("C05", "The state cache never serves states of different inputs",
 "States handed out by the cache are those the simulation yields for exactly the requested controls, time points and initial state; a failed simulation is reported as such and leaves earlier results in place, and a repeated request for the same inputs is answered without simulating again. Requests of any size are answered.",
 ["histories", "fault_sequences"], "all sequences of requests over different inputs with any of the simulations failing",
 "The tests of the cache are not even among the ones that build here, and use two requests.",
 [CC], [("cache lookup and refresh", CC)], "StateCache", LIM)
add("C06", "The optimizer answers for the current point, whatever the call order",
 "After announcing a new point, objective, gradient, constraints and constraint Jacobian may be requested in any order and any number of times, and each answer equals what a fresh evaluation at the current controls gives. A failed simulation or derivative computation is reported by the return value and never leads to an answer belonging to another point later on.",
 ["histories", "fault_sequences"], "all orders of announcing new points and requesting the four quantities, with failures at any call",
 "Tests request each quantity once after one new point.",
 [IO_], [("freshness of states and derivatives", IO_)], "Optimizer", LIM)
add("C07", "Objective and constraints have the values the problem defines",
 "The objective is the time integral by the trapezoidal rule (without the fixed initial time) of cost plus penalty at the simulated states and interpolated controls, and the constraint values are those at exactly the constraint times, in ascending order. Bounds and initial controls are the given ones resampled to the control and constraint times.",
 ["inputs", "configurations"], "all problems, time grids (state, control, constraint times) and controls",
 "Tests use equidistant grids with coinciding or nested points.",
 [IO_, S + "Optimization_helpers/Optimization_helpers.cpp"], [("quadrature and interpolation", IO_)], "Optimizer", LIM)
add("C08", "Objective gradient and constraint Jacobian are exact derivatives",
 "The objective gradient and the constraint Jacobian equal the total derivatives of objective and constraints with respect to every control value, including the dependence of the states on the controls through all earlier time steps. This holds for any control grid covering the state times and any choice of constraint times among the state times.",
 ["inputs", "configurations"], "all problems with regular state equations, all grids and controls",
 "Derivatives are tested on one grid each; mistakes in the interpolation between grids or in the backward sweep vanish there.",
 [IO_, CJ], [("adjoint sweep", IO_), ("block structure", CJ)], "Optimizer", LIM)
add("C09", "The declared Jacobian sparsity structure is complete and consistent",
 "The row and column indices declared for the constraint Jacobian are distinct, in range, and include every entry that can be nonzero (a constraint depends on all controls that influence states up to its time); values are delivered in the order of these indices. Reading, writing and accumulating whole or partial columns of the structure touch exactly the addressed entries.",
 ["configurations", "histories"], "all numbers and times of controls and constraints",
 "Tests check one or two fixed configurations.",
 [CJ], [("column-block storage", CJ)], "Jacobian", LIM)
add("C10", "Inconsistent optimization set-ups are rejected",
 "Setting up an optimization throws an error if numbers of controls, constraints or states do not match the problem, bounds differ in structure from each other or from the controls, times are not sorted, control times do not cover the state times, or a constraint time is not a state time after the first; every consistent set-up is accepted and usable.",
 ["configurations"], "all combinations of grids and sizes",
 "Tests contain only consistent set-ups.",
 [IO_], [("constructor checks", IO_)], "Optimizer", LIM)
add("C11", "What is reported to and by the optimizer back end belongs together",
 "Every evaluation requested by the interior-point solver is computed at the point it passes, failures are passed on, and sizes, bounds, start point and sparsity are those of the problem. After the run, the reported objective, cost, penalty and constraints all belong to the reported controls.",
 ["histories", "fault_sequences"], "all call sequences the solver may make, including new points after which only some quantities are asked for, and failed evaluations",
 "Tests only run complete optimizations to success.",
 [WR, S + "IpoptWrapper/Adaptor.cpp"], [("call-backs", WR)], "Optimizer", LIM)
add("C12", "Every component owns its own contiguous part of each index space",
 "In every network, the ranges of states, controls and constraints assigned to the components are disjoint and contiguous, have the size each component needs, and together cover the whole vectors. Identical input yields identical numbering independent of the order of entries in the input files.",
 ["inputs", "configurations"], "all networks that can be assembled from the available component types",
 "Tests build networks of one or two components.",
 [NP + "Networkproblem.cpp", NP + "Componentclasses/Statecomponent.cpp"], [("setup of indices", NP + "Networkproblem.cpp")], "Assembly", LIM)
add("C13", "The equations of a network are square and complete",
 "For every network whose edges connect nodes of their own kind (gas or power) and whose gas nodes all have edges, evaluating the equations sets each residual exactly once as a function of states, and there are as many equations as states. No component writes an equation that belongs to another one's row, and the equations do not depend on the previous content of the result vector.",
 ["inputs", "configurations"], "all networks over all node and edge types",
 "Tests evaluate single components in isolation.",
 [NP + "Networkproblem.cpp", NP + "Gas/Gasnode.cpp", NP + "Gas/Gasedge.cpp"], [("equation index ownership", NP + "Gas/Gasedge.cpp")], "GasNet", LIM)
add("C14", "Gas is conserved and pressure is continuous at every junction",
 "A solution of the network equations has, at each gas node, equal pressures at all attached pipe ends and signed volumetric flows adding up to the prescribed in- or outflow at that time (sources feed in, sinks take out, inner nodes neither); pressure nodes hold the prescribed pressure. This holds for any number and direction of attached edges of any type.",
 ["inputs", "configurations"], "all junction layouts, edge types and directions, boundary data and states",
 "The gas tests do not build here and cover one layout each.",
 [NP + "Gas/Gasnode.cpp", NP + "Gas/Flowboundarynode.cpp", NP + "Gas/Pressureboundarynode.cpp", NP + "Gas/Sink.cpp"], [("node balance", NP + "Gas/Gasnode.cpp")], "GasNet", LIM)
add("C15", "Gas edges obey their stated physical laws",
 "Pipes discretise the isothermal Euler equations with friction by the implicit box scheme on an equidistant spatial grid no coarser than requested; short pipes transmit pressure and flow unchanged; compressors raise and control valves lower the pressure by the control value in force and transmit flow. Initial data, boundary values and results are given in bar and volumetric flow and convert to and from the internal variables without loss.",
 ["inputs"], "all pipe data, states, time steps and controls",
 "The tests of pipes, box scheme and Euler equations do not build here.",
 [NP + "Gas/Pipe.cpp", S + "Model/Balancelaw/Isothermaleulerequation.cpp", NP + "Gas/Shortcomponent.cpp", NP + "Gas/Compressorstation.cpp", NP + "Gas/Controlvalve.cpp"], [("pipe equations", NP + "Gas/Pipe.cpp"), ("balance law", S + "Model/Balancelaw/Isothermaleulerequation.cpp")], "GasNet", LIM)
add("C16", "Power nodes satisfy the AC power flow equations",
 "Each power node's equations state that the active and reactive power it prescribes equal the AC power-flow sums over its own and its neighbours' voltages, with line and shunt admittances, and that prescribed voltages and angles hold; the remaining quantities reported are the computed ones. This holds for any grid layout and line orientation.",
 ["inputs", "configurations"], "all grids, admittances, voltages, angles and boundary data",
 "The power tests do not build here and use one layout.",
 [NP + "Power/Powernode.cpp", NP + "Power/PQnode.cpp", NP + "Power/PVnode.cpp", NP + "Power/Vphinode.cpp"], [("power sums", NP + "Power/Powernode.cpp")], "PowerNet", LIM)
add("C17", "Gas-power couplings convert as stated and in one direction each",
 "A coupling's gas flow at its gas end and the power at its power node are tied by the efficiencies for burning gas and for generating gas, with a smooth transition between both that agrees with them outside the transition interval and is continuously differentiable. Power plants draw exactly the gas their power output needs from the attached gas node.",
 ["inputs"], "all flows on both sides of and inside the transition, all couplings and layouts",
 "The coupling tests do not build here and sample two flows.",
 [NP + "Gaspowerconnection/Gaspowerconnection.cpp", NP + "Gaspowerconnection/ExternalPowerplant.cpp"], [("conversion", NP + "Gaspowerconnection/Gaspowerconnection.cpp")], "GasPower", LIM)
add("C18", "Every supplied derivative is the derivative of the equations",
 "For every network, time step, state and control, the derivatives of the equations with respect to new state, previous state and controls, and those of costs, penalties and constraints, equal the derivatives of the corresponding functions, with entries only for variables the equations depend on. The result is the same whether the matrix is being built for the first time or refilled.",
 ["inputs", "configurations"], "all networks over all component types and all states",
 "Derivative tests exist per component and mostly do not build here.",
 [NP + "Networkproblem.cpp", NP + "Gas/Pipe.cpp", NP + "Power/Powernode.cpp", NP + "Gas/Compressorstation.cpp"], [("component derivatives", NP + "Networkproblem.cpp")], "Derivative", LIM)
add("C19", "Per-component data reaches the component with the same id",
 "Initial values, controls, bounds and boundary values given for a component id are written to exactly that component's part of the respective vector at all its points, whatever the order and set of entries in the file; other parts stay unchanged. Missing entries for a component that needs them, unknown ids, and data with wrong number of values are reported as the interface states instead of being misassigned.",
 ["inputs"], "all networks and all orders, subsets and supersets of data entries",
 "Tests use files in matching order.",
 [NP + "Networkproblem.cpp", NP + "Componentclasses/SimpleControlcomponent.cpp", NP + "Componentclasses/SimpleConstraintcomponent.cpp"], [("matching by type and id", NP + "Networkproblem.cpp")], "DataFile", LIM)
add("C20", "Topology and boundary files are merged correctly or rejected",
 "The assembled description contains every component of the topology exactly once with the boundary values of the same id attached; duplicate ids, missing boundary values in a type that has any, and unknown component types are rejected, and surplus boundary values are ignored. The result does not depend on the order of entries.",
 ["inputs"], "all topology and boundary files over several types and ids, in any order",
 "Tests use one hand-made pair of files.",
 [NF, S + "Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp"], [("merge of sorted vectors", NF)], "Topology", LIM)
add("C21", "The network graph knows its nodes and edges consistently",
 "In an assembled network every edge starts and ends at the nodes named in its data, every node lists exactly the edges that start or end there, and lookups by id find exactly the component with this id. Edges naming missing nodes, an edge from a node to itself, and duplicate ids are rejected.",
 ["inputs", "histories"], "all graphs, including attaching and removing edges",
 "Tests use one or two graphs.",
 [NW + "Net.cpp", NW + "Node.cpp", NW + "Edge.cpp"], [("attachment", NW + "Edge.cpp"), ("lookup", NW + "Net.cpp")], "Graph", LIM)
add("C22", "Defaults fill in exactly the missing keys and required data is enforced",
 "A component is built from its own data, with the configured defaults of its type used only for keys it does not give itself, also inside of quantities and boundary values that are given in part; a component that still lacks a required key or has a value of the wrong kind is rejected. Defaults for keys the component type does not have are reported, and neither the data of one component nor how often a type was used ever influences another component. A network written with the help of defaults has the same equations as the network written out in full.",
 ["inputs", "configurations"], "all combinations of given, defaulted, missing, surplus and wrong data for all component types, and all networks",
 "Tests of defaults cover one made-up schema and one component.",
 [CF + "include/Componentfactory.hpp", JS + "schema_validation.cpp", JS + "make_schema.cpp"], [("default insertion and validation", CF + "include/Componentfactory.hpp")], "Defaults", LIM)
add("C23", "Results contain every component at every saved time, with its own values",
 "The saved results list every component that has states under its type and id with one entry per saved time in ascending order, and the values are that component's part of the saved state in the documented units. Saved control results list every controlled component likewise.",
 ["inputs", "histories"], "all networks and all saved time series",
 "No test reads a complete result file.",
 [NP + "Networkproblem.cpp", NP + "Componentclasses/Statecomponent.cpp", NP + "Componentclasses/SimpleStatecomponent.cpp", NP + "Componentclasses/SimpleControlcomponent.cpp"], [("saving of results", NP + "Networkproblem.cpp")], "Results", LIM)
add("C24", "Saved controls can be read back without change",
 "Controls written to a result file, read back as the control input of the same network on the same control times, give the same control vector (and the same simulated states).",
 ["inputs", "histories"], "all networks with controls and all control values and grids",
 "There is no test that reads back what was written.",
 [NP + "Componentclasses/SimpleControlcomponent.cpp", NP + "Networkproblem.cpp"], [("saving and setting of controls", NP + "Networkproblem.cpp")], "Results", LIM)
add("C25", "Concurrent runs never share an output location",
 "Any number of runs started at the same time each obtain an output directory or file that none of the others has and that did not exist before, or fail with an error after a bounded number of tries. Nothing that existed before is overwritten or removed, and the problem files are copied completely.",
 ["schedules", "histories"], "all interleavings of runs that may generate the same names, with any pre-existing entries",
 "Tests use a single process.",
 [IOU], [("exclusive creation", IOU)], "OutputNames", LIM)
add("C26", "Overwriting a file never loses its content",
 "After an attempt to overwrite a JSON file, whatever operation failed on the way, the file holds either its complete old content or the complete new content, and a failed attempt is reported. After success no backup is left behind.",
 ["fault_sequences", "crash_points"], "a failure of any single file operation during the overwrite",
 "Tests only overwrite successfully.",
 [AJ], [("backup and rollback", AJ)], "Overwrite", LIM)
add("C27", "Path containment is decided correctly",
 "A path is accepted as lying inside a root directory exactly if, after resolving dots and redundant separators lexically, it is the root or below it; absolute paths elsewhere and paths climbing out are refused, also if their name only begins like the root's.",
 ["inputs"], "all roots and relative or absolute paths with dots, repeated or trailing separators",
 "Tests use two paths.",
 [IOU], [("path comparison", IOU)], "Paths", LIM)
add("C28", "Matrix handlers add up contributions at the addressed entry",
 "Building a sparse matrix from contributions gives at each entry the sum of its contributions, also in transposed mode; refilling an existing structure yields the same matrix as building it anew, with no value left from before; addressing an entry outside the matrix is an error. Nothing outside the addressed entries changes.",
 ["histories", "inputs"], "all sequences of contributions and refills, plain and transposed",
 "Tests add each entry once.",
 [S + "Auxillary/Matrixhandler/Matrixhandler.cpp"], [("triplet and in-place handlers", S + "Auxillary/Matrixhandler/Matrixhandler.cpp")], "Matrix", LIM)
add("C29", "Physical units convert to SI exactly as defined",
 "A measurement with any known unit, SI prefix and numeric factor converts to the SI value it denotes (including offset temperature scales); unknown units or prefixes, missing keys, and malformed strings are rejected.",
 ["inputs"], "all units, prefixes, numeric factors and values",
 "Tests of units do not build here and sample a dozen cases.",
 [S + "Auxillary/unit_conversion/unit_conversion.cpp"], [("parsing and conversion", S + "Auxillary/unit_conversion/unit_conversion.cpp")], "Units", LIM)
add("C30", "Stochastic power demand is reproducible and bounded",
 "A stochastic demand node reports the seed it uses, a given one or a fresh one, and with this seed yields the same path on every run. In each time step active and reactive power walk from their values at the last saved state by equal Euler-Maruyama substeps of the mean-reverting process with independent normal samples towards the boundary value at the new time, in at least the configured number of substeps and enough of them for stability, each limited to the configured relative deviation around a nonzero mean. What was drawn for a time step does not change between evaluations of it and is what the node's equations demand; invalid parameters are rejected.",
 ["inputs", "histories"], "all seeds, parameters and sequences of prepared time steps, including repeated ones",
 "The stochastic tests do not build here and use one step.",
 [NP + "Power/StochasticPQnode.cpp", S + "Auxillary/Stochastics/Normaldistribution.cpp"], [("path generation", NP + "Power/StochasticPQnode.cpp")], "Ornstein", LIM)
add("C31", "A simulation run writes exactly the simulated results",
 "Running a problem directory in simulation mode creates one new output directory holding a full copy of the problem and a result file whose states satisfy the network equations at every time point within the solver tolerance, starting from the given initial values with the given boundary data and controls; the problem and earlier outputs stay as they are. Input that is invalid or that the network equations cannot be solved for is reported as an error, and no result file is written; a result that could not be written completely is never reported as success. This also holds for several runs on the same directory at the same time.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "all problem directories, settings, histories of runs and edits, and failing disk operations",
 "No test runs the program.",
 [GC, GH], [("run", GC)], "Run", LIM)
add("C32", "An optimization run writes controls and the states they cause",
 "Running a problem directory in optimization mode writes controls within their bounds and exactly the states the simulation yields for these controls, on the control and state times requested, with constraints checked at the requested times including the end; they are satisfied there unless the run says that no optimum was found, and the reported cost, penalty, objective and violations belong to the written controls. Input that is invalid or for which no controls can be found is reported as an error, and no result is written.",
 ["inputs", "configurations", "fault_sequences"], "all optimization problem directories without random demand",
 "No test runs the program.",
 [GC, GH], [("run", GC)], "Run", LIM)
add("C33", "Generated schemas accept exactly the data the components accept",
 "The schema files generated for topology, boundary, initial and control data list exactly the component types that have such data, and accept an entry of a type exactly if grazer itself builds or reads the component with it (as far as keys, kinds of values and numbers of entries are concerned; keys with complete configured defaults may be missing). The problem data schema accepts the settings grazer runs with. A schema directory that holds other files or directories is reported and left untouched.",
 ["inputs", "configurations"], "all component types, complete defaults and entries with required, optional, missing, surplus and wrong data",
 "Schema tests compare one made-up schema.",
 [JS + "schema_generation.cpp", JS + "make_schema.cpp", CF + "Componentfactory.cpp"], [("schema generation", JS + "schema_generation.cpp")], "Components", LIM)
add("C34", "Schema commands complete the directory and leave all data as they are",
 "Inserting schema references makes each of the five data files whose schema exists begin with a `$schema` key that names this schema relative to the file (a reference already there is kept), followed by all its other keys with their values in unchanged order; a missing file is created with the reference alone. Files of other kinds and everything else stay untouched, as does everything but the schema files when schemas are generated, and inserting again changes nothing. A data file that holds no JSON object, and anything that could not be read or written completely, is reported by the exit status. The program computes the same from files with references as from files without.",
 ["inputs", "histories", "fault_sequences"], "all data files, histories of edits and schema commands, and failing disk operations",
 "No test runs the commands on existing data in different states.",
 [JS + "schema_key_insertion.cpp", JS + "schema_generation.cpp"], [("insert_schema_key_into_data_jsons", JS + "schema_key_insertion.cpp")], "SchemaKeys", LIM)
