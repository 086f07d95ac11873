#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the entries stay readable)."""
import json, os
FD = "opm/flowdiagnostics/"
GR = "opm/utility/graph/"
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "The all-sources time-of-flight field solves the upwind flow equations",
  "For every connection graph without self-connections, multi-phase flux field, pore-volume field and set of well rates, the forward (reverse) time-of-flight returned for all cells is the solution of the first-order upwind equations fed by all inflow (outflow) sources: each cell's value is its pore volume over its total inflow plus the tracer-and-flux weighted mean of its upwind values. Cells that no source reaches get exactly the 200-year cap, cells whose own filling time exceeds 200 years act as 200-year cells for everything downstream of them, and no returned value is negative, non-finite or above the cap.",
  ["inputs", "configurations"],
  "every graph, flux sign pattern and magnitude, number of phases, pore volume (including zero) and placement/overlap of wells, in both directions",
  "The tests evaluate four hand-computed fields on at most six cells, all acyclic, single phase, equal pore volumes and far from the cap.",
  [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
  [("upwind cell solve and cap", FD+"TracerTofSolver.cpp: solveSingleCell, solve"), ("flow-direction graph assembly, phase summation", FD+"Toolbox.cpp: buildAssembledConnections"), ("topological ordering", FD+"TracerTofSolver.cpp: computeOrdering")],
  [("influx", "total inflow per cell over connections", FD+"TracerTofSolver.cpp: InOutFluxComputer")],
  ["Toolbox::computeInjectionDiagnostics(...).fd.timeOfFlight()", "Toolbox::computeProductionDiagnostics(...).fd.timeOfFlight()"])

p("C02", "Each well's tracer and time-of-flight fields solve that well's own problem",
  "For every flow field and every requested injector (producer), the returned concentration is the steady upwind solution in which only that well's inflow (outflow) carries the tracer while all other inflow dilutes it, and the returned per-tracer time-of-flight is the matching tracer-weighted solution restricted to that tracer. Wells may share cells, span several cells, sit in each other's flow path, or inject in some cells and produce in others.",
  ["inputs", "configurations"],
  "every flow field, pore-volume field and arrangement of one to three wells on the cells, for every well in both directions",
  "The tests compare per-well fields in three small acyclic fields where every well has exactly one perforated cell and no reverse per-well field is ever checked.",
  [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
  [("local source handling", FD+"TracerTofSolver.cpp: solveLocal, setupLocalSource, cleanupLocalSource, solveSingleCell"), ("splitting of signed well rates by id", FD+"Toolbox.cpp: assignInflowFlux")],
  [("local source term", "the part of a cell's inflow that carries the tracer being solved", FD+"TracerTofSolver.hpp")],
  ["Solution::concentration(id)", "Solution::timeOfFlight(id)"])

p("C03", "A tracer is reported exactly in the cells its well floods or drains",
  "The cells listed in a well's concentration and time-of-flight results are exactly the cells reachable downstream (for producers: upstream) from that well's injecting (producing) cells along connections with non-zero net flux, however small the flux, the source or the resulting concentration is (as long as it does not underflow). Every reported concentration is positive and at most one (up to solver tolerance), and both result maps list the same cells.",
  ["inputs", "configurations"],
  "every directed flow graph and start-cell set, including flow loops and flux or rate ratios of twelve orders of magnitude",
  "The tests only contain five distinct flow graphs with rates of 0.3 and 0.6, none with a loop and none with a weak source.",
  [FD+"TracerTofSolver.cpp", GR+"tarjan.c", FD+"Toolbox.cpp"],
  [("reachable component ordering", GR+"tarjan.c: tarjan_reachable_sccs"), ("propagation of newly non-zero tracer values through loops", FD+"TracerTofSolver.cpp: solveMultiCell"), ("positive-tracer verification", FD+"TracerTofSolver.cpp: solveLocal")],
  [], ["Solution::concentration(id)", "Solution::timeOfFlight(id)"])

p("C04", "In volume-conserving flow the tracers partition every flooded cell",
  "Whenever connection fluxes and well rates balance in every cell, the concentrations of all injectors sum to one in every cell reached from any injector, and likewise the concentrations of all producers in every cell that drains to any producer. A cell is flooded by some injector exactly when it drains to some producer.",
  ["inputs", "configurations"],
  "every divergence-free combination of fluxes and rates and every grouping of the perforated cells into wells",
  "The tests check individual values in three balanced fields; the sum over wells is never formed and balanced fields with loops or crossflow are absent.",
  [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
  [("common total inflow used for all tracers", FD+"TracerTofSolver.cpp: solveSingleCell"), ("per-id rates plus accumulated totals", FD+"Toolbox.cpp: assignInflowFlux")],
  [], ["sum over ids of Solution::concentration(id)"])

p("C05", "Injector-producer pair fluxes and volumes balance in volume-conserving flow",
  "Whenever fluxes and rates balance in every cell, the injection flux and the production flux of every injector-producer pair are equal and opposite, the pair fluxes of one well summed over its counterparts give that well's total rate, and pair volumes are non-negative and sum over all pairs to the pore volume of the cells that are swept.",
  ["inputs", "configurations"],
  "every divergence-free combination of fluxes and rates, every grouping of perforated cells into wells, every pore-volume field",
  "One test evaluates a single pair in a one-dimensional line.",
  [FD+"DerivedQuantities.cpp", FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
  [("pair flux and pair volume", FD+"DerivedQuantities.cpp: injectorProducerPairFlux, injectorProducerPairVolume")],
  [], ["injectorProducerPairFlux", "injectorProducerPairVolume"])

p("C06", "Production diagnostics equal injection diagnostics of the reversed flow",
  "Computing production diagnostics gives the same global time-of-flight, per-well time-of-flight and concentrations as computing injection diagnostics after negating every connection flux and every well rate, and vice versa. This holds for any flow field, balanced or not.",
  ["inputs", "configurations"],
  "every flow field, pore-volume field and well arrangement",
  "The tests never relate the two directions to one another and check reverse fields for global time-of-flight only.",
  [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp"],
  [("exchange of the upstream and downstream graphs", FD+"Toolbox.cpp: injDiag, prodDiag, buildAssembledConnections"), ("sign split of rates", FD+"Toolbox.cpp: assignInflowFlux")],
  [("downstream and upstream graphs", "mutually transposed weighted flow graphs", FD+"Toolbox.cpp")],
  ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

p("C07", "Results do not depend on how the same flow problem is written down",
  "Renumbering the cells, permuting the connection list, swapping the two cells of a connection while negating its flux, distributing a flux over several phases or over several parallel connections, and renaming wells leave all returned fields unchanged (apart from the corresponding renaming), up to solver tolerance. Splitting a well's rate between several ids leaves the global field and the other wells unchanged, and the parts' concentrations add up to the original well's.",
  ["inputs", "configurations"],
  "every flow problem combined with every such rewriting",
  "Each test uses one fixed numbering, one phase, one orientation and no parallel connections.",
  [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp", GR+"AssembledConnections.cpp"],
  [("orientation and phase handling", FD+"Toolbox.cpp: buildAssembledConnections"), ("merging of parallel connections", GR+"AssembledConnections.cpp: condenseDuplicates, accumulateConnWeights")],
  [], ["all fields of Toolbox::Forward and Toolbox::Reverse"])

p("C08", "A toolbox's results depend only on the data most recently assigned to it",
  "After any sequence of assigning pore volumes, fluxes (also with a different number of phases) and well rates, computing diagnostics in either direction, and moving the toolbox, a computation returns what a fresh toolbox given only the latest accepted data would return. Rejected assignments and rejected computations change nothing, later changes to or destruction of the caller's input objects change nothing, and results already returned stay as they were.",
  ["histories"],
  "every sequence of up to a bounded number of public operations, valid and invalid, on one toolbox",
  "Every test assigns each input once and calls each computation at most twice with unchanged data.",
  [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp"],
  [("flow graph cache invalidated on new fluxes", FD+"Toolbox.cpp: assignConnectionFlux, buildAssembledConnections"), ("well data cleared before reassignment", FD+"Toolbox.cpp: assignInflowFlux")],
  [("flow graph cache flag", "whether the flow graphs match the current fluxes", FD+"Toolbox.cpp: conn_built_")],
  ["Toolbox public interface"])

p("C09", "Inconsistent input is rejected, consistent input is accepted",
  "Creating a connectivity graph with an odd-length cell list or a cell index outside the grid, assigning pore volumes or fluxes of the wrong size or well rates in cells outside the grid, computing before pore volumes and fluxes are assigned, and requesting a start set whose id has no injecting (producing) cell or that contains a cell without injection (production) all raise an exception. On a grid with at least one connection the same calls succeed whenever the data fit the grid and every start set has the id of an injecting (producing) well and lists only that well's injecting (producing) cells, all of them, some or none.",
  ["inputs", "histories", "configurations"],
  "every combination of grid size, input sizes, cell indices around the valid range, assignment order and start sets",
  "The tests try three bad start sets on one grid and no wrongly sized or out-of-range input.",
  [FD+"Toolbox.cpp", FD+"ConnectivityGraph.cpp"],
  [("input validation", FD+"Toolbox.cpp: assignPoreVolume, assignConnectionFlux, assignInflowFlux, injDiag, prodDiag"), ("index validation", FD+"ConnectivityGraph.cpp: constructor")],
  [], ["exceptions from Toolbox and ConnectivityGraph"])

p("C10", "A start set's result is independent of the other start sets requested",
  "The fields computed for a well and the global time-of-flight are the same whichever other start sets are requested in the same call and in whatever order, and repeated or interleaved global and local solves through one solver, also after a rejected local solve, return what a fresh solver returns. A computation reports exactly the ids that were requested.",
  ["histories", "inputs"],
  "every subset and order of start sets, and every sequence of global and local solves up to a bounded length, on every small flow graph",
  "The tests request one fixed list of start sets per field, always in the same order, and never reuse a solver after a failure.",
  [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp"],
  [("solver state reset between solves", FD+"TracerTofSolver.cpp: prepareForSolve, cleanupLocalSource, solveGlobal, solveLocal")],
  [("per-solve scratch state", "start flags, local source, tracer and time-of-flight arrays", FD+"TracerTofSolver.hpp")],
  ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics", "TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"])

p("C11", "Circulating flow is solved to tolerance and always terminates",
  "For flow fields containing loops of any length and nesting, fed or not by sources or upstream flow, every computation terminates, and concentrations and times-of-flight inside and downstream of the loops satisfy the upwind equations to the documented iteration tolerances (1e-9 in concentration, 1e-12 of 200 years in time). Loops that no tracer enters get no tracer and the 200-year cap.",
  ["inputs", "configurations"],
  "every flow graph with loops up to a bounded size and larger ring, chain-of-rings and nested-loop families, with through-flow from dominant down to a bounded fraction of the circulating flow",
  "No test contains a flow loop, so the iterative solver is never executed by the suite.",
  [FD+"TracerTofSolver.cpp", GR+"tarjan.c"],
  [("Gauss-Seidel iteration over a strongly connected component", FD+"TracerTofSolver.cpp: solveMultiCell"), ("component detection", GR+"tarjan.c")],
  [("iteration tolerances", "stopping criterion of the loop solver", FD+"TracerTofSolver.hpp")],
  ["all fields of Toolbox::Forward and Toolbox::Reverse"])

p("C12", "Strong components of every directed graph are found in dependency order",
  "For every directed graph in compressed form, including empty graphs, self-loops, repeated edges and unsorted neighbour lists, the decomposition lists every vertex exactly once, two vertices share a component exactly when each reaches the other, and every edge between different components goes from a later-listed component to an earlier-listed one.",
  ["inputs"],
  "every directed graph up to a bounded number of vertices and parametrised families up to tens of thousands of vertices",
  "The tests decompose six graphs with 4 and 16 vertices.",
  [GR+"tarjan.c"],
  [("Tarjan's algorithm with in-place stacks", GR+"tarjan.c: tarjan_local, capture_scc, complete_dfs_from_vertex, dfs_from_descendant")],
  [("vertex and component stacks", "share storage with the result arrays, growing from the other end", GR+"tarjan.c: initialise_stacks")],
  ["tarjan()", "tarjan_get_numcomponents()", "tarjan_get_strongcomponent()"])

p("C13", "Decomposition from start points covers exactly the reachable subgraph",
  "Starting from any list of start vertices, in any order and with repetitions, the decomposition lists exactly the vertices reachable from them, each once, grouped into the strong components of the full graph, in reverse topological order. A work-space may be larger than the graph and may be reused for any sequence of graphs and start lists without affecting the results.",
  ["inputs", "histories"],
  "every directed graph and start list up to a bounded size, every pair of consecutive uses of one work-space, every work-space size from exact to larger",
  "The tests use six graph/start-list combinations and a fresh exact-size work-space each time.",
  [GR+"tarjan.c"],
  [("multi-start traversal", GR+"tarjan.c: tarjan_reachable_sccs"), ("work-space reset", GR+"tarjan.c: tarjan_initialise")],
  [("vertex status", "undiscovered / pending / done marks kept in the work-space", GR+"tarjan.c: TarjanWorkSpace")],
  ["tarjan_reachable_sccs()"])

p("C14", "Reversing a decomposition reverses component order and nothing else",
  "Reversing a full or start-point decomposition keeps the number of components and the vertex list of each component in its order and reverses the component sequence, for components of every size; reversing twice restores the original, and the reversed sequence is a topological order. If memory for the reversal cannot be obtained, failure is reported and the original sequence is kept.",
  ["inputs", "fault_sequences"],
  "every graph up to a bounded size, component sizes from one to several thousand, one to three consecutive reversals, every allocation failing",
  "The tests reverse decompositions with components of at most four vertices and never make an allocation fail.",
  [GR+"tarjan.c"],
  [("copy in reverse component order", GR+"tarjan.c: reverse_scc_core, copy_int_vector, swap_scc")],
  [], ["tarjan_reverse_sccresult()"])

p("C15", "Compressing a connection list yields the exact weighted adjacency structure",
  "For every list of connections added in any order with any repetitions, compression gives one row per requested source entity with strictly ascending neighbours, containing a pair exactly when that connection was added, and with weights equal to the sum of all weights added for that pair, zero and negative weights included. Start pointers, raw arrays and per-entity iteration all describe this same structure, whether or not the highest-numbered entities occur as sources or sinks.",
  ["inputs", "histories"],
  "every sequence of connections up to a bounded length over a small entity set, with and without weights, every sufficient row count, and large regular families",
  "The tests compress nine fixed lists over four entities.",
  [GR+"AssembledConnections.cpp", GR+"AssembledConnectionsIteration.hpp"],
  [("bucket sort by double transposition", GR+"AssembledConnections.cpp: sort, transpose"), ("duplicate merging and element index mapping", GR+"AssembledConnections.cpp: condenseDuplicates, unique, remapElementIndex, accumulateConnWeights")],
  [("element index", "maps every added connection to its slot in the compressed structure", GR+"AssembledConnections.cpp: elmIdx_")],
  ["startPointers()", "neighbourhood()", "connectionWeight()", "cellNeighbourhood()", "numRows()"])

p("C16", "A connection container can be reused; each compression starts a new graph",
  "After a compression, later additions and compressions on the same object behave exactly as on a new object: nothing of an earlier graph (its entities, extent or weights) influences acceptance, size or content of the next one, also when the next one is smaller or empty. Compressing with fewer rows than the largest pending source entity raises an invalid-argument exception and mixing weighted and unweighted connections raises a logic error; a rejected compression leaves the previous graph readable and the pending connections in place, so that compressing again with enough rows succeeds.",
  ["histories"],
  "every sequence of additions (weighted and unweighted) and compressions (sufficient and insufficient row counts) up to a bounded length",
  "No test compresses the same object twice.",
  [GR+"AssembledConnections.cpp"],
  [("clearing of the connection list", GR+"AssembledConnections.cpp: Connections::clear, compress"), ("validation before assembly", GR+"AssembledConnections.cpp: CSR::create, Connections::isValid")],
  [("largest pending source and sink", "extent of the pending connection list", GR+"AssembledConnections.hpp: max_i_, max_j_")],
  ["addConnection()", "compress()", "numRows()", "neighbourhood()", "connectionWeight()"])

p("C17", "Text output of a flow graph is lossless and leaves the stream as it was",
  "Writing a compressed weighted graph to a stream produces one line per connection with source, neighbour and weight in row order, and reading those numbers back reproduces the graph with bit-identical finite weights, whatever floating-point format and precision the stream had before. Afterwards the stream's format flags and precision are what they were before.",
  ["inputs", "configurations"],
  "every small weighted graph, weights over the whole range of finite doubles, every combination of prior stream float format, precision and common flags",
  "No test writes a graph to a stream.",
  [GR+"AssembledConnections.cpp"],
  [("stream formatting and restoration", GR+"AssembledConnections.cpp: operator<<")],
  [], ["operator<<(std::ostream&, const AssembledConnections&)"])

p("C18", "The F-Phi curve is the normalised, time-sorted storage and flow capacity",
  "For every pore-volume and travel-time field with positive total travel times and some remaining pore volume, the curve starts at (0,0), ends at (1,1), is non-decreasing and concave, and its vertices are the normalised cumulative pore volume against the normalised cumulative pore volume over total travel time taken in order of increasing total travel time. Cells whose share of the total pore volume is above the given fraction are ignored, cells at exactly the fraction are kept; inputs of differing length raise an exception, and the overloads taking solutions and plain fields agree.",
  ["inputs"],
  "every small combination of pore volumes, travel times (with ties) and filter fractions, permuted in every order, and larger families",
  "Two inputs without filtering are tested.",
  [FD+"DerivedQuantities.cpp"],
  [("sorting, accumulation and filtering", FD+"DerivedQuantities.cpp: flowCapacityStorageCapacityCurve, cumulativeNormalized")],
  [], ["flowCapacityStorageCapacityCurve (both overloads)"])

p("C19", "Lorenz coefficient and sweep efficiency follow from the curve and stay in range",
  "For every curve the Lorenz coefficient is twice the trapezoidal area between the curve and the diagonal, and the sweep efficiency starts at (0,0) followed by one point per segment with non-zero flow-capacity increment, with dimensionless time equal to the inverse slope and efficiency Phi + (1-F) times it. For curves produced from travel times the Lorenz coefficient lies in [0,1], is zero exactly for equal travel times, dimensionless times and efficiencies are non-decreasing, and efficiencies reach but never exceed one; curves with differing lengths raise an exception.",
  ["inputs"],
  "every small curve over a value grid (including repeated points and flat or vertical segments) and every curve produced by the F-Phi construction from small inputs",
  "Three curves are evaluated for each quantity.",
  [FD+"DerivedQuantities.cpp"],
  [("trapezoid quadrature", FD+"DerivedQuantities.cpp: lorenzCoefficient"), ("segment-wise inverse slopes", FD+"DerivedQuantities.cpp: sweepEfficiency")],
  [], ["lorenzCoefficient", "sweepEfficiency"])

p("C20", "Pair volume and pair flux accumulate exactly the shared tracer cells",
  "For any two solutions and ids, the pair volume is the sum over cells present in both tracers of pore volume times both concentrations, and zero when either tracer is absent. The pair fluxes are the sums of (positive) injector rates weighted by the producer tracer and of (negative) producer rates weighted by the injector tracer, where a well's cells of the other sign, and cells outside the tracer, contribute nothing; an id without rates raises an exception.",
  ["inputs"],
  "every pair of small tracer maps, rate maps with mixed signs and zeros, pore volumes and present or absent ids",
  "One line model with single-cell wells is tested.",
  [FD+"DerivedQuantities.cpp"],
  [("pair accumulation", FD+"DerivedQuantities.cpp: injectorProducerPairVolume, pairFlux, injectorProducerPairFlux")],
  [], ["injectorProducerPairVolume", "injectorProducerPairFlux"])

p("C21", "A solution object stores per-id fields faithfully and copies are independent",
  "After any sequence of assigning the global field and per-id time-of-flight and concentration fields, copying and moving, a solution returns exactly the last assigned value for every field and id, an empty field for ids never assigned, and as start points exactly the ids having a concentration, once each. Modifying, moving or destroying one object never changes a copy made from it.",
  ["histories"],
  "every sequence of assignments, queries, copies and moves up to a bounded length over a few ids and objects",
  "The tests read solutions produced by the toolbox; direct assignment, overwriting, copying and moving are not tested.",
  [FD+"Solution.cpp"],
  [("id-keyed storage, deep copy", FD+"Solution.cpp: Solution::Impl, copy and move constructors")],
  [], ["Solution public interface"])

p("C22", "Cell sets behave as named mathematical sets with ordered ids",
  "A cell set contains each inserted or initially given cell exactly once, whatever the order and multiplicity of insertion, keeps the id it was created with, and copies are independent. Ids compare exactly as their strings do (a strict total order on distinct names, equal names equivalent) and return their string unchanged.",
  ["histories", "inputs"],
  "every sequence of insertions and copies up to a bounded length, all pairs and triples of short id strings",
  "A few fixed insert sequences and one pair of ids are tested.",
  [FD+"CellSet.cpp", FD+"CellSet.hpp"],
  [("hash set of cells, string ids", FD+"CellSet.cpp")],
  [], ["CellSet, CellSetID public interface"])

p("C23", "Connection values and connectivity tables address every entry independently",
  "A value table for any number of connections and phases starts at zero, and after any sequence of writes every (connection, phase) entry reads back its own last written value; accesses outside the table raise an exception and change nothing, and copies are independent. A connectivity graph reports the given number of cells and connections and returns each connection's two cells in the given order.",
  ["histories", "inputs"],
  "every table shape up to a bound, every sequence of writes up to a bounded length, every index in and around the valid range, every small connection list",
  "One 4x3 table written once and one 4-connection graph are tested.",
  [FD+"ConnectionValues.cpp", FD+"ConnectivityGraph.cpp"],
  [("index computation and range check", FD+"ConnectionValues.cpp: operator()"), ("pairwise storage", FD+"ConnectivityGraph.cpp: connection")],
  [], ["ConnectionValues, ConnectivityGraph public interface"])

p("C24", "Running out of memory at any point fails cleanly",
  "If any single memory allocation, or all allocations from some point on, fail during any public operation, the operation either still returns its correct result or reports failure (a C++ exception; for the C graph routines a null or false result) without crashing, leaking or corrupting memory. The objects involved stay safe to use, a graph whose compression failed is either the previous or the new one, and repeating the failed operation with memory available gives the correct result.",
  ["fault_sequences", "histories"],
  "every allocation point of every public operation in a set of small scenarios, as one-shot and as persistent failure, also failing again in the repetition",
  "The tests never inject an allocation failure.",
  [GR+"tarjan.c", FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", GR+"AssembledConnections.cpp"],
  [("null checks and cleanup", GR+"tarjan.c: create_tarjan_workspace, allocate_scc_result, tarjan, tarjan_reachable_sccs"), ("owning smart pointers and failure checks", FD+"TracerTofSolver.cpp: computeOrdering, computeLocalOrdering")],
  [], ["all public operations under allocation failure"])

p("C25", "Separate objects can be used concurrently without affecting each other",
  "Operations on different toolbox, solver, graph or work-space objects, run from different threads or interleaved in any way within one thread, return the same results as when run alone. Concurrent reads of one finished result are likewise unaffected by each other.",
  ["schedules", "histories"],
  "every interleaving of two threads with one preemption (for smaller workloads two) at any basic block, load or store, and every operation-level interleaving up to a bounded length, over pairs of small workloads",
  "All tests are single-threaded and use one object at a time.",
  [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp", GR+"tarjan.c", GR+"AssembledConnections.cpp", FD+"DerivedQuantities.cpp"],
  [("absence of shared mutable state", "all scratch data are members, locals or caller-provided work-spaces")],
  [], ["public interface under interleaving"])

p("C26", "Random vectors are reproducible, independent between generators and in range",
  "A generator's n-th request returns the same sample for every generator with the same request history, regardless of what other generators do; every sample has the requested length, index samples lie between zero and the given maximum inclusive, both ends being attainable, and a normal sample with a given mean and standard deviation is the standard sample scaled and shifted accordingly.",
  ["histories"],
  "every interleaving of requests on two generators up to a bounded length, and all small maxima",
  "The generator is only used to produce unspecified inputs for other tests.",
  ["opm/utility/numeric/RandomVector.cpp"],
  [("per-object default-seeded engine", "opm/utility/numeric/RandomVector.cpp: Impl")],
  [("engine state", "advanced by every request", "opm/utility/numeric/RandomVector.cpp: gen_")],
  ["RandomVector::normal", "RandomVector::index"])

p("C27", "The all-wells field is the concentration-weighted mean of the wells' own fields",
  "For every flow field, volume-conserving or not, with all injectors (producers) requested: in every cell reached by some well, the time-of-flight for all sources is the mean of the wells' own times-of-flight weighted by their concentrations there, as long as none of these is at the 200-year cap; where some are, it is not below that mean. Cells that no well reaches have the cap.",
  ["inputs", "configurations"],
  "every flow field, pore-volume field and arrangement of wells, in every cell and both directions",
  "The tests never relate the global field to the per-well fields.",
  [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
  [("global solve", FD+"TracerTofSolver.cpp: solveGlobal, setupStartArrayFromSource"), ("local solve", FD+"TracerTofSolver.cpp: solveLocal, setupLocalSource"), ("sharing of rates between ids", FD+"Toolbox.cpp: assignInflowFlux")],
  [("source terms", "all sources dilute, only the local source carries the tracer", FD+"TracerTofSolver.cpp: source_term_, local_source_term_")],
  ["Solution::timeOfFlight()", "Solution::timeOfFlight(id)", "Solution::concentration(id)"])

p("C28", "A change of units scales times and leaves concentrations unchanged",
  "Multiplying all fluxes and rates by one positive factor and all pore volumes by another leaves every concentration and every set of reported cells unchanged and multiplies every time-of-flight by the ratio of volume to rate factor, however small or large the factors are (barring overflow and underflow), as long as no filling time or resulting time reaches 200 years; with equal factors the fields are the same, cap included.",
  ["inputs", "configurations"],
  "every flow field and pair of factors between 2^-250 and 2^260, powers of two and other factors",
  "The tests use one magnitude of fluxes, rates and pore volumes.",
  [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", GR+"AssembledConnections.cpp"],
  [("absence of absolute thresholds on rates, volumes and concentrations", FD+"Toolbox.cpp: buildAssembledConnections, assignInflowFlux; "+FD+"TracerTofSolver.cpp: solveSingleCell")],
  [], ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

p("C29", "A change has no influence on cells that are not downstream of it",
  "The forward results in a cell depend only on the pore volumes, inflowing connection fluxes and injection rates of that cell and of the cells upstream of it: any other change of pore volumes, fluxes, injection or production rates, more cells, connections or wells elsewhere, or a separate region with its own flow, leaves them unchanged up to solver tolerance. Reverse results likewise depend only on the cell itself and what lies downstream of it.",
  ["inputs", "configurations"],
  "every flow field and every change of one of its numbers or addition to its grid, in every cell and both directions",
  "The tests look at one fixed data set at a time.",
  [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", GR+"tarjan.c", GR+"AssembledConnections.cpp"],
  [("cell-by-cell solve in topological order", FD+"TracerTofSolver.cpp: solve, solveSingleCell, solveMultiCell"), ("separation of inflow and outflow rates", FD+"Toolbox.cpp: assignInflowFlux")],
  [], ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
