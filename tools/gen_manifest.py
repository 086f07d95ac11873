#!/usr/bin/env python3
"""Writes MANIFEST.json and checks.json (one place for what each check is and claims)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
FLOATS = "Comparison tolerance 1e-11 relative, plus the documented iteration tolerances (1e-9 concentration, 200 years/1e12) times the computed error amplification inside loops."
LOOPS = "Flow problems whose loops amplify iteration errors by more than 1e5 are excluded (counted as excluded)."
NOSELF = "No self-connections; at least one connection."
def c(id, jobs, technique, rule, note, assumptions=(), level="model_checking"):
    C[id] = dict(jobs=[[id.lower(), x] for x in jobs.split(",")], technique=technique, rule=rule, note=note, assumptions=list(assumptions), level=level)
SOLVE = "explicit-state enumeration of flow problems on the real code against a dense reference solver"
c("C01", "plain,asan", SOLVE, "every flow problem of each listed family in both directions; non-trivial: some cell is reached and some flux is non-zero",
  "Exhaustive within the stated grids, flux/rate/pore-volume alphabets and pattern families; every global field compared with an independent long-double solution; memory checked in a second build.", [FLOATS, LOOPS, NOSELF])
c("C02", "plain,asan", SOLVE, "every flow problem of each listed family, every well, both directions; non-trivial: a well's tracer reaches beyond its own cells",
  "Exhaustive within the stated families; every per-well field compared with an independent solution of that well's own system.", [FLOATS, LOOPS, NOSELF])
c("C03", "plain,asan", "explicit-state enumeration of flow problems on the real code against reachability", "every flow problem of each listed family incl. loops and ratios down to 1e-200; non-trivial: some well floods a proper subset of cells",
  "Exhaustive within the stated families; reported cell sets compared exactly with an independent reachability computation.", [LOOPS, NOSELF, "Concentrations that underflow double precision are excluded."])
c("C04", "plain,asan", "explicit-state enumeration of all balanced flow problems of bounded size, invariant checked on each", "every flux pattern with well rates derived from its divergence, every grouping into wells; non-trivial: at least two wells of one kind",
  "Exhaustive within the stated families; the partition of unity is checked in every cell.", [FLOATS, LOOPS, NOSELF])
c("C05", "plain,asan", "explicit-state enumeration of all balanced flow problems of bounded size, invariants checked on each", "every flux pattern with well rates derived from its divergence, every grouping into wells; non-trivial: at least two pairs",
  "Exhaustive within the stated families; pair balances and sums over counterparts checked for every pair.", [FLOATS, LOOPS, NOSELF])
c("C06", "plain,asan", "explicit-state enumeration with a differential oracle (reversed flow)", "every flow problem of each listed family, both directions of the duality; non-trivial: a well exists and some flux is non-zero",
  "Exhaustive within the stated families; compares two runs of the real code.", [FLOATS, LOOPS, NOSELF])
c("C07", "plain,asan", "explicit-state enumeration of flow problems and of all their rewritings (symmetry check)", "every flow problem of each family in every listed rewritten form; all cases have at least 120 rewritings",
  "Exhaustive over all cell permutations, end swaps and splits of the listed kinds within the stated families.", [FLOATS, LOOPS, NOSELF])
c("C08", "plain,asan", "stateless model checking of all operation sequences up to a depth against a fresh object", "every sequence of operations; non-trivial: contains a computation after at least two assignments",
  "All histories to the stated depth over the stated operation alphabet, from a fresh and a used toolbox.", [NOSELF])
c("C09", "plain,asan", "explicit-state enumeration of valid and invalid inputs around every limit", "every combination of sizes and indices; non-trivial: the input must be rejected or has at least one connection",
  "Exhaustive over the stated sizes and indices; acceptance and rejection both decided.", ["Grids without connections are excluded: computing on them is rejected by design.", "Rates of exactly zero outside the grid may be accepted or rejected."])
c("C10", "plain,asan", "stateless model checking of all solve sequences and start-set selections against a fresh solver", "every ordered selection of start sets and every sequence of solves; non-trivial: at least two solves",
  "All sequences to the stated depth on all stated flow fields.", [NOSELF])
c("C11", "plain,asan", SOLVE + "; termination by watchdog", "every problem of the loop families; only problems with a loop are counted and all are non-trivial",
  "Exhaustive within the stated loop families; residual and solution compared; a hang is reported by a progress watchdog.", [FLOATS, LOOPS, NOSELF])
c("C12", "plain,asan", "explicit-state enumeration of all digraphs up to 5 vertices (thorough 6) against bit-mask reachability", "every digraph in several neighbour orders; non-trivial: neither all singletons nor one component",
  "Exhaustive up to 5 vertices (6 in the thorough tier), plus shape families up to 200000 vertices against an independent algorithm.")
c("C13", "plain,asan", "explicit-state enumeration of all digraphs, start lists and work-space histories up to a bound", "every digraph, start list and work-space reuse; non-trivial: several components and not everything reachable",
  "Exhaustive within the stated bounds, plus shape families up to 200000 vertices.")
c("C14", "plain,asan,alloc", "explicit-state enumeration of decompositions, reversals and allocation failures", "every digraph and start subset reversed 1..3 times, every allocation of the reversal failing; non-trivial: at least two components",
  "Exhaustive up to 4 vertices, component sizes up to 5000 over all listed pairs.")
c("C15", "plain,asan", "explicit-state enumeration of all connection lists up to a length against an ordered-map model", "every list in every order with every weight of the alphabet; non-trivial: at least one connection",
  "Exhaustive within the stated list lengths and entities; dyadic weights make sums exact, so comparison is exact.")
c("C16", "plain,asan", "stateless model checking of all operation histories up to depth 6 against a map model", "every history; non-trivial: at least two successful compressions or one rejected one",
  "All histories to the stated depth; model and real object compared after every operation.")
c("C17", "plain,asan", "explicit-state enumeration of graphs, weights and stream formats, round trip on each", "every combination of weight, format, precision and flags; non-trivial: at least one connection written",
  "Exhaustive over the stated weights and formats; weights are read back bit for bit.", ["Finite weights; decimal integer base for cell numbers; the stream itself does not fail."])
c("C18", "plain,asan", "explicit-state enumeration of all small fields against a reference construction", "every field over the value alphabets; non-trivial: more than one distinct travel time",
  "Exhaustive within the stated alphabets, plus patterned fields up to 5000 cells.", ["Inputs with non-positive total travel time in a cell kept, or no pore volume kept, are excluded."])
c("C19", "plain,asan", "explicit-state enumeration of all small curves and fields against the definitions", "every curve on the value grid and every curve produced from small fields; non-trivial: not the diagonal",
  "Exhaustive within the stated grids; rounding of quotients of cumulative sums is bounded by the increments.")
c("C20", "plain,asan", "explicit-state enumeration of tracer, rate and pore-volume maps against the definitions", "every combination of maps; non-trivial: the tracers share a cell",
  "Exhaustive within the stated maps; dyadic values make sums exact up to 1e-12.")
c("C21", "plain,asan", "stateless model checking of all operation histories up to a depth against a map model", "every sequence of assignments, copies, moves and destructions; non-trivial: every complete sequence",
  "All histories to the stated depth over the stated alphabets and id pairs; all objects compared after every operation.")
c("C22", "plain,asan", "stateless model checking of all insertion/copy histories and all id pairs against sets and strings", "every history and every pair of ids; non-trivial: repeated cells or different ids",
  "All histories to the stated depth; ids over all words up to length 3 of a 6-letter alphabet including NUL.")
c("C23", "plain,asan", "stateless model checking of all table shapes, write sequences and connection lists against an array model", "every shape, sequence and list; non-trivial: more than one entry or connection",
  "Exhaustive within the stated shapes and sequence lengths.")
c("C24", "allocasan", "exhaustive enumeration of allocation-failure points and pairs of failures over a retry, on the real code", "every allocation of every scenario fails, alone or with all later ones, also again in the repetition; non-trivial: a failure was actually injected",
  "Every allocation point of 79 scenarios covering the public operations, under AddressSanitizer with leak counting.", ["Allocations inside libstdc++ for exception objects are not failed.", "Stream output is not part of the scenarios: standard streams absorb allocation failures."], level="fault_enumeration")
c("C25", "plain,sched", "stateless model checking of two-thread schedules with bounded preemptions on the real code, with an independence analysis of recorded accesses; all operation-level merges", "every schedule of every pair of workloads within the preemption bound; non-trivial: at least one preemption took place",
  "All one-preemption schedules at every basic block, load and store, all two-preemption schedules of the smaller pairs; recorded accesses show which pairs share written data at all.", ["Sequentially consistent interleavings of two threads; code inside the C and C++ runtime libraries is not preempted.", "Schedules in which a thread waits for a lock held by the paused one are released and run freely (counted as excluded)."])
c("C26", "plain,asan", "stateless model checking of all request histories of two generators up to a depth", "every sequence and distribution of requests; non-trivial: both generators are used",
  "All histories to the stated depth; samples compared with the same history alone.", ["Both ends of the range are required to be attained within 200 samples per value, for the fixed default seed."])
c("C27", "plain,asan", "explicit-state enumeration of flow problems on the real code, superposition invariant checked on each", "every flow problem of each listed family, both directions, all wells requested; non-trivial: at least two wells or a loop",
  "Exhaustive within the stated families; global and per-well results of the real code compared with each other in every cell.", [FLOATS, LOOPS, NOSELF])
c("C28", "plain,asan", "explicit-state enumeration with a differential oracle (change of units)", "every flow problem of each listed family in several other units, both directions; non-trivial: at least two wells or a loop",
  "Exhaustive within the stated families; compares two runs of the real code.", [FLOATS, LOOPS, NOSELF, "Where times change with the unit, problems with a filling time of 200 years or more are excluded.", "Units that are not powers of two are applied to single-phase fluxes only, so that cancelling phases still cancel."])
c("C29", "plain,asan", "explicit-state enumeration of flow problems and all single changes to them, with a differential oracle", "every flow problem of each listed family and every listed change, both directions; non-trivial: at least one cell lies outside the influence of the change",
  "Exhaustive over the stated changes within the stated families; compares two runs of the real code in every cell the change cannot influence.", [FLOATS, LOOPS, NOSELF])

with open(os.path.join(here, "checks.json"), "w") as f:
    json.dump({k: dict(jobs=v["jobs"], level=v["level"], rule=v["rule"], assumptions=v["assumptions"]) for k, v in sorted(C.items())}, f, indent=1)
    f.write("\n")
M = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=k, quick_cmd="python3 check.py %s" % k, thorough_cmd="python3 check.py %s --thorough" % k, evidence_file="evidence/%s.json" % k,
                      technique=v["technique"], level=v["level"], level_note=v["note"]) for k, v in sorted(C.items())],
         not_applicable=[],
         notes="No hooks in /repo: instrumentation is added by compiler and linker options only. Repairs of genuine defects in /repo are listed in known_findings.txt.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(C), "checks")
