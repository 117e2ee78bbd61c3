#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program only for readability)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


NP = "src/Model/Networkproblem/"
prop("C01", "Gas nodes balance flow, share one pressure and honour boundary values",
     "In every simulated gas network, at every reported time after the start, the flows of all edges meeting at a node (counted with the edge's direction) sum to the inflow prescribed there: zero at inner nodes, the boundary value at sources, minus the boundary value at sinks. All edges meeting at such a node report the same pressure there. At a pressure boundary node the reported pressure of every attached edge is the prescribed one, boundary values being linearly interpolated in time.",
     ["inputs", "configurations"],
     "all well-posed gas networks (any topology, cycles and parallel edges included, any orientation of edges, any mix of node and edge types), all boundary data and time grids for which the simulation succeeds",
     "The tests check single node residuals at a handful of hand-made networks with one or two edges; they never run a whole simulation through the program and compare its result with the node laws.",
     [NP + "Gas/Gasnode.cpp", NP + "Gas/Flowboundarynode.cpp", NP + "Gas/Innode.cpp", NP + "Gas/Pressureboundarynode.cpp", NP + "Gas/Sink.cpp", NP + "Gas/Source.cpp", NP + "Gas/Gasedge.cpp"],
     [("pressure equality chain and flow sum over directed attachments", NP + "Gas/Gasnode.cpp"), ("sign of prescribed flow", NP + "Gas/Sink.cpp, Source.cpp"), ("prescribed pressure", NP + "Gas/Pressureboundarynode.cpp")],
     ["states.json of `grazer run`"])
prop("C02", "Pipes follow the discretised isothermal Euler equations at every step",
     "In every simulation, for every pipe, every cell and every time step, the reported densities/pressures and flows satisfy the implicit box discretisation of the isothermal Euler equations with the documented pressure law and friction law, on a grid of the fewest equal cells no longer than the requested one, which spans exactly the pipe's length. Summed over a pipe this means that the gas stored in it changes exactly by what flows in minus what flows out.",
     ["inputs", "configurations"],
     "all pipe lengths, diameters, roughnesses, cell sizes, time steps, flow directions and friction regimes (laminar, transition, turbulent), inside any network",
     "The unit tests evaluate the scheme at a few fixed vectors and compare against the same formulas; none checks a computed trajectory against an independent model, nor all the cells of pipes with differing cell counts, nor reversed and laminar flow.",
     [NP + "Gas/Pipe.cpp", "src/Model/Scheme/include/Implicitboxscheme.hpp", "src/Model/Balancelaw/Isothermaleulerequation.cpp"],
     [("box scheme", "src/Model/Scheme/include/Implicitboxscheme.hpp"), ("flux, source, pressure law", "src/Model/Balancelaw/Isothermaleulerequation.cpp"), ("cells of a pipe and unit conversion", NP + "Gas/Pipe.cpp")],
     ["states.json of `grazer run`"])
prop("C03", "Compressors, valves and short pipes act exactly as their controls say",
     "At every reported time after the start a compressor raises the pressure from its start to its end by exactly its control value at that time, a control valve lowers it by exactly its control value, a short pipe leaves it unchanged, and all three pass on the same flow they receive. The control value at a time is the linear interpolation of the given controls on the control time grid the user configured (by step width or by number of steps, or the simulation grid if nothing is configured).",
     ["inputs", "configurations"],
     "all networks containing any number and mix of controlled and uncontrolled short edges, all control data, control grids finer, coarser or incommensurate to the simulation grid",
     "The tests use one or two control components with constant or hand-computed controls; offsets between several controlled components and control grids that differ from the simulation grid are sampled at one point.",
     [NP + "Gas/Compressorstation.cpp", NP + "Gas/Controlvalve.cpp", NP + "Gas/Shortpipe.cpp", NP + "Gas/Shortcomponent.cpp", "src/Grazer/helpers.cpp", "src/Model/Problemlayer/Timeevolver.cpp"],
     [("short component equations", NP + "Gas/Shortcomponent.cpp"), ("control grid", "src/Grazer/helpers.cpp"), ("control interpolation in the time loop", "src/Model/Problemlayer/Timeevolver.cpp"), ("index of a component's controls", NP + "Componentclasses/SimpleControlcomponent.cpp")],
     ["states.json of `grazer run`"])
prop("C04", "Power networks satisfy the AC power flow equations",
     "In every simulated power network, at every reported time after the start, the real and reactive power reported at each node equal the AC power flow sums over its admittance, its transmission lines and the neighbouring voltages and phases. The quantities prescribed at a node by its type (voltage and phase, real power and voltage, or real and reactive power) equal the boundary values linearly interpolated to that time.",
     ["inputs", "configurations"],
     "all connected power networks (meshes and parallel lines included, any orientation of lines), all admittances and boundary data for which the simulation succeeds",
     "The tests evaluate the node residuals at fixed small networks; no test takes a program run and re-computes the power flow from its output.",
     [NP + "Power/Powernode.cpp", NP + "Power/Vphinode.cpp", NP + "Power/PVnode.cpp", NP + "Power/PQnode.cpp", NP + "Power/Transmissionline.cpp", NP + "Gaspowerconnection/ExternalPowerplant.cpp"],
     [("P and Q sums", NP + "Power/Powernode.cpp"), ("prescribed quantities per node type", NP + "Power/*node.cpp")],
     ["states.json of `grazer run`"])
prop("C05", "Gas-power coupling converts flow into power consistently",
     "At every reported time after the start the gas flow drawn or fed by a gas power connection and the real power balance of the plant it is attached to satisfy the documented smoothed conversion: power to gas with one efficiency, gas to power with the other, and a smooth transition in between. The flow it takes from the gas node is counted in that node's flow balance.",
     ["inputs", "configurations"],
     "all coupled networks with one or more connections, both conversion directions and the smoothing zone, all efficiencies",
     "The tests check the conversion polynomial at a few flows and one coupled example by Jacobian; the coupling of a simulated trajectory is never recomputed.",
     [NP + "Gaspowerconnection/Gaspowerconnection.cpp", NP + "Gaspowerconnection/ExternalPowerplant.cpp", NP + "Gas/Gasnode.cpp"],
     [("generated power and smoothing", NP + "Gaspowerconnection/Gaspowerconnection.cpp"), ("voltage and phase of the plant", NP + "Gaspowerconnection/ExternalPowerplant.cpp")],
     ["states.json of `grazer run`"])
prop("C06", "Stochastic loads are reproducible from the recorded seed and reported truly",
     "A run with stochastic loads records the seed it used with each such node, and a run that is given these seeds reproduces the same loads exactly, in the same and in any later run; nodes without a given seed get seeds that differ from node to node and from run to run. At every reported time the real and reactive power reported are those that the reported voltages and phases imply, the reported deviations are their differences to the prescribed mean values, and no deviation exceeds the configured cut-off of the mean. With zero volatility the loads relax without noise towards their means; with volatility they deviate from this relaxation by noise of the configured strength.",
     ["inputs", "histories", "configurations"],
     "all seeds, volatilities, drift strengths, cut-off factors, numbers of stochastic steps and time grids for which the simulation succeeds",
     "Randomness is only smoke-tested; no test runs twice and compares, none re-reads the output and checks it against the power flow.",
     [NP + "Power/StochasticPQnode.cpp", "src/Auxillary/Stochastics/Stochastic.cpp", "src/Auxillary/Stochastics/include/Normaldistribution.hpp", "src/Auxillary/Stochastics/Normaldistribution.cpp"],
     [("seed recording", NP + "Power/StochasticPQnode.cpp"), ("Ornstein-Uhlenbeck step with truncated increments", "src/Auxillary/Stochastics/Stochastic.cpp"), ("result writing", NP + "Power/StochasticPQnode.cpp")],
     ["states.json of `grazer run`"])
prop("C07", "Results do not depend on how the network is written down",
     "Reordering components in any input file, renaming ids consistently, or moving a description between a directly written value and a default does not change the reported results of any component beyond solver accuracy. Turning a pipe, short pipe or transmission line around only mirrors its position axis and flips the sign of its reported flow.",
     ["inputs", "configurations"],
     "all networks and all permutations of component lists, types, boundary, initial and control entries, all renamings that keep ids distinct, all subsets of reversible edges",
     "Metamorphic relation over pairs of runs; the tests only ever use one ordering of each file.",
     ["src/Model/Netfactory/Netfactory.cpp", "src/Model/Network/Net.cpp", "src/Auxillary/aux_json/Aux_json.cpp", NP + "Networkproblem.cpp", NP + "Gas/Gasnode.cpp"],
     [("merging of topology and boundary by id", "src/Model/Netfactory/Netfactory.cpp"), ("distribution of initial values and controls by id", NP + "Networkproblem.cpp"), ("edge direction factors", NP + "Gas/Gasedge.cpp")],
     ["states.json of `grazer run`"])
prop("C08", "Results cover every component on the exact time grid, starting as given",
     "A successful run reports every component that has a state exactly once under its own type and id, with strictly increasing times that start at the configured start time, end at the configured end time and are equally spaced by no more than the desired step. The values reported at the start time are the given initial values, interpolated to the component's grid points.",
     ["inputs", "configurations"],
     "all start and end times (negative and non-round ones included), desired steps that do or do not divide the interval, all networks",
     "The tests check one or two hand-picked time grids in isolation; floating-point accumulation only shows for particular combinations of start, end and step.",
     ["src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/Timedata/Timedata.cpp", "src/Grazer/commands.cpp", NP + "Networkproblem.cpp", NP + "Componentclasses/SimpleStatecomponent.cpp", NP + "Gas/Pipe.cpp"],
     [("equidistant time grid", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp"), ("collecting results of all components", NP + "Networkproblem.cpp"), ("initial values", NP + "Componentclasses/SimpleStatecomponent.cpp, Gas/Pipe.cpp")],
     ["states.json of `grazer run`"])
prop("C09", "Runs never overwrite each other and archive the inputs they used",
     "Every run writes into an output directory of its own that did not exist before, also when several runs of the same problem are started at the same moment; earlier results and the problem's input files stay byte for byte as they were. The output directory holds a complete and identical copy of the problem directory (left alone during the run) the results were computed from. A run that cannot write its results completely ends with a failure status.",
     ["schedules", "histories"],
     "all interleavings of concurrently started runs on one problem directory, all contents of the problem and output directories, sub-directories included",
     "Needs several processes racing for the same time stamp and byte-wise comparison of directory trees; the tests call the path helpers once, in one process.",
     ["src/Auxillary/Input_Output/Input_output.cpp", "src/Grazer/commands.cpp"],
     [("reservation of a unique directory by time stamp", "src/Auxillary/Input_Output/Input_output.cpp"), ("copy of the problem directory", "src/Auxillary/Input_Output/Input_output.cpp")],
     ["directory tree after `grazer run`"])
prop("C10", "The Newton solver reports success only for true solutions",
     "Whenever the nonlinear solver reports success, the point it returns satisfies the given equations with a residual norm no larger than the tolerance, the residual norm it reports is the true one at that point, and it has used no more iterations than allowed. It reports failure, without crashing, whenever no such point was found, for singular or rank-deficient Jacobians and undefined (non-finite) residuals too; a point that already solves the equations is returned unchanged.",
     ["inputs"],
     "all systems of equations (linear, nonlinear, singular, without solution, yielding non-finite values), start points, tolerances and iteration limits, with full and simplified Newton steps, reusing one solver for several solves",
     "The tests solve three fixed systems with known roots; they never meet singular systems, non-finite residuals, exhausted iterations or repeated use.",
     ["src/Newtonsolver/Newtonsolver.cpp"],
     [("convergence test and damping loop", "src/Newtonsolver/Newtonsolver.cpp")],
     ["result of the solver's solve call"])
prop("C11", "A failing time step ends the run with an error, never with made-up results",
     "If the equations of a time step cannot be solved to the configured tolerance within the configured iterations and retries, the run ends with a failure exit status and an error message and reports no states. Conversely a run that ends successfully reports only states whose equations hold to the configured tolerance, at every time step, whatever the solver settings.",
     ["inputs", "configurations"],
     "all solver settings (tolerance, iteration limit, retries, simplified or full Newton) and all problems, solvable or not",
     "The tests run the time loop only on solvable examples; failure paths, retries and the fall-back to the full Newton method never run.",
     ["src/Model/Problemlayer/Timeevolver.cpp", "src/Newtonsolver/Newtonsolver.cpp", "src/Grazer/commands.cpp", "src/Grazer/grazer.cpp"],
     [("retry loop", "src/Model/Problemlayer/Timeevolver.cpp"), ("error exit", "src/Grazer/grazer.cpp")],
     ["exit status, output directory and states.json of `grazer run`"])
prop("C12", "Inconsistent inputs are rejected with an error and produce no results",
     "An input that is structurally inconsistent (duplicate id, edge to an unknown node, self-connected or doubly defined component, unknown component type, boundary, initial or control data of a component that is missing, given twice, has too few values, is unsorted or does not cover the simulated time after the start, missing required setting, wrong value type, unknown unit, end time not after start time) makes the run end with a failure exit status and an error message and write no states. The same input without the inconsistency runs.",
     ["inputs"],
     "all valid problems and all inconsistencies of the listed kinds planted at any place in them",
     "Tests plant one instance of some of the kinds, mostly in isolated units; position matters (first, last, only entry of a list, only component of a type).",
     ["src/Model/Netfactory/Netfactory.cpp", "src/Model/Network/Net.cpp", "src/Auxillary/json_schema/schema_validation.cpp", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/unit_conversion/unit_conversion.cpp", NP + "Networkproblem.cpp"],
     [("merging and duplicate checks", "src/Model/Netfactory/Netfactory.cpp"), ("schema validation", "src/Auxillary/json_schema/"), ("range and value count checks", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp")],
     ["exit status, output and output directory of `grazer run`"])
prop("C13", "No input makes the program crash",
     "Whatever the contents of the input files and the command line, the program ends by itself with success or with a failure status and a message; it never dies by a signal, an internal assertion or undefined behaviour (invalid memory access, out-of-range element, invalid arithmetic conversion).",
     ["inputs"],
     "all contents of the problem directory: valid problems with values, keys, list entries or files removed, repeated, swapped, re-typed, truncated or replaced by extreme values, for simulation, optimisation and the schema commands; sizes and step counts that would exhaust memory or time are not judged",
     "The input space is unbounded; the tests feed well-formed files only.",
     ["src/Grazer/commands.cpp", "src/Grazer/helpers.cpp", "src/Model/Netfactory/Netfactory.cpp", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/aux_json/Aux_json.cpp", "src/Model/Componentfactory/include/Componentfactory.hpp"],
     [("schema validation before use", "src/Auxillary/json_schema/"), ("exceptions caught in main", "src/Grazer/grazer.cpp")],
     ["exit status of the program built with address and undefined-behaviour sanitizers"])
prop("C14", "Defaults and units mean what they say",
     "A value given as a default for a component type has the same effect as writing it into every component of this type that lacks it, and a value written in the component itself always wins. The same physical quantity written in any of the accepted unit spellings gives the same simulation result as in base units.",
     ["inputs", "configurations"],
     "all component properties, all subsets of components lacking them, all accepted units and prefixes of lengths, pressures and the like, all magnitudes",
     "The tests convert a handful of strings and apply defaults to one component; products of units, prefixes and component properties are not reached.",
     ["src/Auxillary/unit_conversion/unit_conversion.cpp", "src/Auxillary/json_schema/schema_validation.cpp", "src/Model/Componentfactory/Componentfactory.cpp", NP + "Gas/Pipe.cpp"],
     [("unit parsing", "src/Auxillary/unit_conversion/"), ("defaults", "src/Auxillary/json_schema/schema_validation.cpp, src/Model/Componentfactory/")],
     ["states.json of `grazer run`, unit conversion results"])
prop("C15", "Generated schemas accept exactly what the program accepts",
     "The schema command writes, for a problem directory, schema files that are valid JSON schemas; every consistent input, in particular every input that the program runs and that describes only components of the problem, validates against them, and an input that violates them in a component by a missing required property, a wrong type or an unknown component type in the topology is also refused by the program. Writing them again changes nothing.",
     ["inputs"],
     "all valid problem inputs over all component types, and single-place violations of the schemas",
     "The tests do not create any schema (they need a library not present), and none ties the schema files to what the loader accepts.",
     ["src/Auxillary/json_schema/schema_generation.cpp", "src/Auxillary/json_schema/make_schema.cpp", "src/Model/Componentfactory/Componentfactory.cpp", "src/Auxillary/json_schema/schema_validation.cpp"],
     [("schema assembly", "src/Auxillary/json_schema/schema_generation.cpp"), ("component schemas", "src/Auxillary/json_schema/make_schema.cpp")],
     ["files written by `grazer schema make-full-factory`"])
prop("C16", "Tagging input files with their schema keeps everything else",
     "The schema key command changes the input files in no other way than setting their schema reference: every other key, value, number and nesting is kept, already tagged files end up with the current reference, and applying it twice is the same as once. A failure while writing (full or read-only medium) leaves the old or the new complete contents of every file and is reported; files that hold no JSON object are refused and left alone.",
     ["inputs", "fault_sequences"],
     "all JSON contents of the input files (nested values, extreme numbers, non-ASCII strings, existing tags), all failures of a write",
     "The tests rewrite one small file and inject no write failure.",
     ["src/Auxillary/json_schema/schema_key_insertion.cpp", "src/Auxillary/aux_json/Aux_json.cpp"],
     [("replacement with backup", "src/Auxillary/aux_json/Aux_json.cpp"), ("schema reference insertion", "src/Auxillary/json_schema/schema_key_insertion.cpp")],
     ["files after `grazer schema insert-key`"])
prop("C17", "All model equations have exact derivatives",
     "For every network, time step, state and control, the derivatives the model supplies of its equations with respect to the new state, the previous state and the controls equal the true derivatives of the equations it evaluates.",
     ["inputs", "configurations"],
     "all networks of all component types, all states (both flow directions, all friction regimes, both conversion directions), controls, times and time steps",
     "The tests compare derivatives with hand-computed values or difference quotients at single states of single components, away from regime changes.",
     [NP + "Gas/", NP + "Power/", NP + "Gaspowerconnection/", "src/Model/Scheme/include/Implicitboxscheme.hpp", "src/Model/Balancelaw/Isothermaleulerequation.cpp", NP + "Networkproblem.cpp"],
     [("d_evalute_d_new_state and its companions of each component", NP)],
     ["equation and derivative evaluation of a whole network problem"])
prop("C18", "Sparse derivative assembly keeps every contribution in its place",
     "Whatever sequence of add operations the components perform, the assembled sparse matrix equals the dense matrix obtained by performing the same operations: in the first assembly, in which the pattern is collected, and in every later one, in which stored coefficients are overwritten. Results of an earlier assembly never leak into a later one.",
     ["inputs", "histories"],
     "all sequences of coefficient operations inside a fixed pattern, repeated assemblies, offset-shifted and transposed use",
     "The tests do a handful of operations on 2x2 and 3x3 matrices.",
     ["src/Auxillary/Matrixhandler/Matrixhandler.cpp", "src/Newtonsolver/Newtonsolver.cpp"],
     [("triplet and coefficient handlers", "src/Auxillary/Matrixhandler/Matrixhandler.cpp")],
     ["assembled matrix"])
prop("C19", "The optimiser's gradient and constraint Jacobian are the true derivatives",
     "For every problem and control trajectory, the objective gradient and the constraint Jacobian handed to the optimiser equal the derivatives of the objective and of the constraints as functions of all control values at all control times, the dependence through the simulated states included.",
     ["inputs", "configurations"],
     "all networks with controls, costs, penalties and constraints, all control grids and constraint grids (finer, coarser, incommensurate with the time steps), all control values for which the simulation succeeds",
     "The tests use a one-dimensional or linear toy problem on two or three grids; real networks and incommensurate grids are not compared.",
     ["src/IpoptWrapper/ImplicitOptimizer.cpp", NP + "Networkproblem.cpp", "src/IpoptWrapper/ConstraintJacobian.cpp"],
     [("adjoint recursion through the time steps", "src/IpoptWrapper/ImplicitOptimizer.cpp")],
     ["optimiser callback results"])
prop("C20", "Optimiser evaluations do not depend on what was evaluated before",
     "The objective, gradient, constraints, constraint Jacobian and states returned for a control trajectory are the same whatever trajectories and quantities were evaluated before, in whatever order, failed simulations in between included. An evaluation for which the simulation fails, or of a derivative that cannot be computed, is reported as failed and nothing from it is used later.",
     ["histories"],
     "all sequences of evaluation requests over a set of control trajectories, feasible and infeasible ones mixed",
     "A property of histories: caches are keyed on floating point vectors; the tests evaluate in one fixed order, at few points.",
     ["src/IpoptWrapper/ImplicitOptimizer.cpp", "src/Optimization_helpers/ControlStateCache.cpp", "src/IpoptWrapper/Wrapper.cpp"],
     [("state cache", "src/Optimization_helpers/ControlStateCache.cpp"), ("derivative invalidation", "src/IpoptWrapper/ImplicitOptimizer.cpp")],
     ["optimiser callback results"])
prop("C21", "The sparse constraint Jacobian storage represents one well-defined matrix",
     "For every pair of constraint and control time grids, the coordinate list given to the optimiser enumerates each stored entry exactly once and inside the matrix, and contains every pair in which a control can influence a constraint. Reading or writing an entry, a column or a block through any access path addresses the coefficient that this list names, and converting to a dense matrix changes nothing. Two such matrices are equal exactly if structure and values are, and one is never assigned to another of different structure.",
     ["inputs", "configurations"],
     "all numbers of constraints and controls per time, all strictly increasing constraint and control grids over a common interval, all access paths",
     "The tests use a few fixed grids with up to four times.",
     ["src/IpoptWrapper/ConstraintJacobian.cpp", "src/IpoptWrapper/include/ConstraintJacobian.hpp"],
     [("column blocks of decreasing height", "src/IpoptWrapper/ConstraintJacobian.cpp")],
     ["stored coordinates and values"])
prop("C22", "Optimisation results are feasible, consistent and no worse than the start",
     "An optimisation run for which the optimiser reports success writes controls on the configured control grid that respect the given control bounds at every control time, and states that a plain simulation with exactly these controls reproduces. Whenever a control trajectory satisfying all state constraints exists with a margin, the constraints hold for the result within the optimiser's tolerance at every constraint time; among trajectories that satisfy the constraints the result is not worse than the initial one.",
     ["inputs", "configurations"],
     "all problems with controls, bounds, constraints, constraint and control grids for which the optimiser succeeds",
     "No test runs the optimisation end to end through the program and validates its output files against each other.",
     ["src/Grazer/commands.cpp", "src/IpoptWrapper/Adaptor.cpp", "src/IpoptWrapper/Wrapper.cpp", "src/IpoptWrapper/ImplicitOptimizer.cpp", "src/IpoptWrapper/Initialvalues.cpp"],
     [("bounds and constraint grids", "src/Grazer/commands.cpp, src/Optimization_helpers/Optimization_helpers.cpp"), ("solution hand-over", "src/IpoptWrapper/Wrapper.cpp")],
     ["controls.json and states.json of `grazer run`"])
prop("C23", "Interpolated series return exact linear interpolation and refuse all else",
     "A series of time-value points, whether built from numbers or read from input, returns at each given point the given vector, between two points their linear interpolation, and rejects arguments outside its range beyond a rounding tolerance. It rejects unsorted points and wrong vector lengths with an error. The equidistant time grids built from start, end and step (or number of steps) have strictly increasing, equally spaced points no further apart than the step, with both ends met exactly.",
     ["inputs"],
     "all numbers of points, spacings (equal and unequal), values, lookup positions (at points, beside points, at the ends), all starts, ends and steps of grids",
     "The tests use up to five hand-picked points; boundary lookups, rounding-sized offsets and long equidistant grids are not covered.",
     ["src/Auxillary/InterpolatingVector/InterpolatingVector.cpp", "src/Auxillary/InterpolatingVector/include/InterpolatingVector.hpp"],
     [("lookup and interpolation", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp"), ("construction from input", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp")],
     ["values returned and errors raised"])
prop("C24", "Pressure and friction laws are physical and smooth",
     "Pressure and density convert into each other without loss over the whole physical range, pressure rising strictly with density. The friction factor is the laminar law below the transition, the documented turbulent law above it and continuous with a continuous slope everywhere, does not depend on the flow's sign, and friction always opposes the flow.",
     ["inputs"],
     "all pressures from vacuum to several hundred bar, flows of both signs from zero to far beyond turbulence, diameters and roughnesses",
     "The tests check single points; continuity at the regime boundaries depends on derivatives of the transition curve that no test reaches.",
     ["src/Model/Balancelaw/Isothermaleulerequation.cpp", "src/Model/Balancelaw/include/Isothermaleulerequation.hpp"],
     [("pressure law and its inverse", "src/Model/Balancelaw/Isothermaleulerequation.cpp"), ("friction factor with transition spline", "src/Model/Balancelaw/Isothermaleulerequation.cpp")],
     ["values of the laws"])
prop("C25", "Random increments follow the truncated normal law",
     "Random increments always lie in the requested interval, are reproducible from their seed, and are distributed as the normal distribution restricted to that interval, also for one-sided, tail and narrow intervals (an interval that is practically never hit may end in an error instead). The load process built from them never leaves its cut-off bounds, and its mean and spread over many seeds are those of the mean-reverting process.",
     ["inputs", "histories"],
     "all means, deviations and intervals, seeds, and process parameters (drift, volatility, step, cut-off)",
     "Distribution properties need many samples at many parameters; the tests draw at fixed parameters and rarely check more than bounds.",
     ["src/Auxillary/Stochastics/Normaldistribution.cpp", "src/Auxillary/Stochastics/include/Normaldistribution.hpp", "src/Auxillary/Stochastics/Stochastic.cpp"],
     [("rejection samplers for the tail cases", "src/Auxillary/Stochastics/Normaldistribution.cpp"), ("bounded process step", "src/Auxillary/Stochastics/Stochastic.cpp")],
     ["drawn values"])
prop("C26", "A network is always a consistent graph",
     "Every network that is built from the data of a problem has unique ids, every edge appears in exactly the start list of its start node and the end list of its end node, attachments keep working after the network is moved, and lookup by id or by kind finds exactly the members. Any set of components that cannot form such a graph (repeated id, foreign or unknown node, node listed as edge, edge joining a node with itself) is rejected with an error, and destroying networks or parts of them in any order is safe.",
     ["inputs", "histories"],
     "all multigraphs, all insertion orders, all sequences of building, moving and destroying",
     "The tests build networks of up to a few components in one order.",
     ["src/Model/Network/Net.cpp", "src/Model/Network/Node.cpp", "src/Model/Network/Edge.cpp", "src/Model/Network/Idobject.cpp", "src/Model/Netfactory/Netfactory.cpp", "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp"],
     [("attachment bookkeeping", "src/Model/Network/Edge.cpp, Node.cpp"), ("attachment checks", "src/Model/Network/Net.cpp"), ("id checks", "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp")],
     ["network queries"])
prop("C27", "Input paths resolve inside the problem, output names are unique in time",
     "A file name in the problem description is resolved relative to the problem directory, absolute names are kept, and a name that would leave the directory is never treated as inside it, whatever mixture of dots, separators and trailing separators is used. Time stamps used as directory names are well-formed, sort like the times they stand for within one offset from UTC, and are fixed-width.",
     ["inputs"],
     "all path spellings (relative, absolute, dots, repeated and trailing separators, prefix-like sibling names), all times",
     "The tests check a handful of spellings.",
     ["src/Auxillary/Input_Output/Input_output.cpp", "src/Model/Netfactory/Netfactory.cpp", "src/Auxillary/aux_json/Aux_json.cpp"],
     [("path resolution", "src/Auxillary/Input_Output/Input_output.cpp"), ("time stamp formatting", "src/Auxillary/Input_Output/Input_output.cpp")],
     ["resolved paths, names of output directories"])
prop("C28", "Post-processing tools preserve the data they transform",
     "The helper that extracts initial conditions takes the state of every component at the first step not before the requested time (the last step if there is none), and restarting from it continues the run: the concatenation equals one longer run. Helpers that embed or remove seeds, convert old layouts, change flows, raise pressures, move components, insert positions, normalise files or print tables change or print exactly the values they name, at every component and time, and keep everything else; if they cannot, they report an error.",
     ["inputs", "histories"],
     "all run outputs and all input files of valid problems",
     "The helper programs have no tests at all.",
     ["helper_functions/extract_new_initial_condition.cpp", "helper_functions/include_seed_in_boundaryvalues.cpp", "helper_functions/remove_seed_from_boundaryvalues.cpp", "helper_functions/normalize_jsons.cpp", "helper_functions/change_inflow.cpp", "helper_functions/increase_pressure.cpp", "helper_functions/generate_printing_csv.cpp", "helper_functions/generate_control_printing_csv.cpp", "helper_functions/boundaryprettyfy.cpp", "helper_functions/sum_outflow.cpp", "helper_functions/move_to_category.cpp", "helper_functions/insert_positions.cpp", "helper_functions/construct_gaspowerconnection.cpp", "helper_functions/stringify_value_json.cpp", "helper_functions/get_mean_sigma.cpp", "helper_functions/compute_reference_discrepance.cpp"],
     [("one program per transformation", "helper_functions/")],
     ["files written by the helpers"])
prop("C29", "Costs and penalties are weighted consistently in value and derivative",
     "The objective of a control trajectory is the trapezoidal sum over the times after the start (each weighted by half the length of the steps beside it) of the weighted costs plus penalties of all cost components, at the states the simulation reaches and the controls interpolated to those times. The running cost of a compressor is the square of its control. Every cost and penalty derivative the model supplies is the true derivative of the value it supplies, weights included, for all weights.",
     ["inputs", "configurations"],
     "all networks with cost components (compressors, valves), all weights, states, controls and times",
     "The tests compare single components with hand values at default weights.",
     [NP + "Networkproblem.cpp", NP + "Gas/Compressorstation.cpp", NP + "Gas/Controlvalve.cpp", "src/IpoptWrapper/ImplicitOptimizer.cpp"],
     [("weights", NP + "Componentclasses/include/Costcomponent.hpp, Networkproblem.cpp"), ("objective quadrature", "src/IpoptWrapper/ImplicitOptimizer.cpp")],
     ["cost evaluation"])
prop("C30", "The optimisation library is given exactly the posed problem",
     "What the optimisation library is told is the posed problem: as many variables as controls times control times and as many constraints as constraints times constraint times; the start, the bounds of the controls and the bounds of the constraints are the given data interpolated linearly to the control and the constraint times, in the order time, then component, lower as lower and upper as upper, whatever grids the data are given on; the Jacobian positions are zero based, distinct and inside. Each value the library asks for (objective, gradient, constraints, Jacobian) belongs to the trajectory it passes, whatever was asked before. The result the library hands back is kept as it is, and the reported cost and penalty belong to it.",
     ["inputs", "configurations", "histories"],
     "all numbers of controls and constraints, all control, constraint and data time grids, all sequences of callbacks with changing and unchanged trajectories, all final results",
     "The tests call the callbacks in one order with grids that coincide; a wrong order, grid or a missed invalidation shows only with several components and independent grids or a history.",
     ["src/IpoptWrapper/Wrapper.cpp", "src/IpoptWrapper/ImplicitOptimizer.cpp", "src/IpoptWrapper/Initialvalues.cpp", "src/IpoptWrapper/Adaptor.cpp"],
     [("callbacks and result", "src/IpoptWrapper/Wrapper.cpp"), ("interpolation of start and bounds", "src/IpoptWrapper/ImplicitOptimizer.cpp")],
     ["optimiser callback results"])
prop("C31", "Convex optimal control problems are solved to their optimum",
     "For dynamics that are linear in states and controls, convex quadratic costs and linear constraints, an optimisation that reports success has found an optimum: its controls are within their bounds, the states simulated from them satisfy the constraints at all constraint times, and the conditions of Karush, Kuhn and Tucker hold; the reported objective, cost and penalty are those of the reported controls. A problem with a strictly feasible control trajectory is never called infeasible.",
     ["inputs", "configurations"],
     "all linear dynamics, convex quadratic costs, linear constraints, bounds around a feasible trajectory, state, control and constraint time grids, and starting points, feasible or not",
     "The tests solve two small problems with known results; whether values, derivatives, bounds and options together lead to the optimum depends on all of them at once.",
     ["src/IpoptWrapper/Adaptor.cpp", "src/IpoptWrapper/Wrapper.cpp", "src/IpoptWrapper/ImplicitOptimizer.cpp"],
     [("options and call of the library", "src/IpoptWrapper/Adaptor.cpp"), ("values and derivatives", "src/IpoptWrapper/ImplicitOptimizer.cpp")],
     ["optimisation results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
