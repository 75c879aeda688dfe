"""Writes properties.jsonl and MANIFEST.json (the checks that exist are claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "python/src/KMCLib/"
CC = "c++/src/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, note, technique, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, technique=technique, observe=list(observe)))


DOM = ("Domain of models: a direction is either periodic with at least 2r+1 repetitions (r: how many cells the processes reach), "
       "or no process extends in it; where implicit wildcards are on, the positions around the sites exist.")

prop("C01", "Available events are exactly the matching (process, site) pairs, always",
     "After construction and after any sequence of executed events, the list of sites at which each process is available is exactly the set found by "
     "matching its local pattern (coordinates, wildcards, basis sites, bucket minima) against the current configuration by brute force, each site listed once. "
     "This holds for every lattice (basis, cell shape, periodicity) and every set of processes; along a periodic direction the lattice has at least 2r+1 repetitions where processes reach r cells, or no process extends there.",
     ["histories", "inputs"], "all event histories and initial configurations of bounded models; all small local patterns",
     "Tests match a handful of fixed configurations and never compare incremental updates with a fresh matching over all histories.",
     [CC + "matcher.cpp", CC + "matchlist.cpp", CC + "matchlistentry.cpp", CC + "interactions.cpp", CC + "latticemodel.cpp", CC + "latticemap.cpp", CC + "process.cpp", CC + "configuration.cpp"],
     [("initial matching of all sites", CC + "latticemodel.cpp:calculateInitialMatching"), ("re-matching of the neighbourhood of an event", CC + "latticemodel.cpp:singleStep"), ("list matching", CC + "matchlist.cpp:whateverMatch"), ("wildcard insertion", CC + "interactions.cpp:updateProcessMatchLists")],
     "Exhaustive exploration of the real backend: every reachable state and every event history of bounded models against a brute-force matcher. " + DOM,
     "explicit-state search and stateless history enumeration of the real implementation against a reference matcher")

prop("C02", "Totals equal the sum of the rates of the available events, always",
     "After any sequence of events, the total rate of every process equals the sum of the rates of the events available for it, and the total rate used for the clock is the sum over all processes, to rounding accuracy and without drift. "
     "A process without available events has a total rate of exactly zero.",
     ["histories", "inputs"], "all event histories of bounded models, with constant and custom rates, plus very long single histories",
     "Tests check totals after a few hand-made additions; drift or a missed update only shows after particular add/remove sequences.",
     [CC + "process.cpp", CC + "customrateprocess.cpp", CC + "interactions.cpp", CC + "simulationtimer.cpp"],
     [("total of a process with constant rate", CC + "process.cpp"), ("incremental rates of a custom process", CC + "customrateprocess.cpp:updateRateTable"), ("probability table", CC + "interactions.cpp:updateProbabilityTable")],
     "Every reachable state of bounded models; totals compared with sums over the listed events to 1e-11 relative.",
     "explicit-state search of the real implementation with a recomputation oracle in every state")

prop("C03", "An event is chosen exactly with its share of the total rate",
     "For every state, the set of random draws that select an available event has measure rate(event)/total rate, for constant and for custom rates, and the selected event is the one executed. "
     "An event that is not available is never selected, not even for draws of exactly zero or the largest value below one.",
     ["inputs", "histories"], "all selection draws (exact breakpoints of the piecewise constant selection map) in every reachable state of bounded models",
     "Tests sample a few draws or compare frequencies of a million draws; zero-measure mistakes at the boundaries and small-weight events are invisible.",
     [CC + "interactions.cpp", CC + "customrateprocess.cpp", CC + "process.cpp", CC + "latticemodel.cpp"],
     [("process by binary search in the cumulative table", CC + "interactions.cpp:pickProcessIndex"), ("site of a process", CC + "process.cpp:pickSite, customrateprocess.cpp:pickSite")],
     "The two draws are scripted through a replacement of the random number function; the breakpoints of the selection map are computed from the totals and probed on both sides.",
     "exhaustive enumeration of selection draws (all breakpoints) in every reachable state of the real implementation")

prop("C04", "An event changes exactly the prescribed sites, and all views agree",
     "An executed event changes the occupation of each site of its process as prescribed (wildcard sites and everything else stay untouched, periodic images resolved to the right sites). "
     "After each step the occupations seen through the configuration's types, local configurations, per-type particle counts, atom-id types and the reported latest event are mutually consistent.",
     ["histories", "inputs"], "all event histories of bounded models",
     "Tests execute single hand-picked events on a few lattices.",
     [CC + "configuration.cpp", CC + "latticemap.cpp", CC + "typebucket.cpp", PY + "CoreComponents/KMCConfiguration.py"],
     [("performing an event", CC + "configuration.cpp:performProcess, performBucketProcess"), ("particle counters", CC + "configuration.cpp:particlesPerType")],
     "Each step is compared with a reference transition function written on plain lists.",
     "explicit-state search of the real implementation in lockstep with a reference transition system")

prop("C05", "Atom identities are conserved and follow the moving atoms",
     "At every time each site without buckets carries exactly one atom identity and each identity sits on exactly one site; a swap or a move along move vectors carries the identity along, adds the move vector to the unwrapped coordinate, and moves nothing else. "
     "An identity's unwrapped coordinate always equals its current site's coordinate up to whole lattice repetitions, and the ids and vectors reported as moved in the last event are those of that event.",
     ["histories", "inputs"], "all event histories of bounded models with implicit and explicit move vectors",
     "Tests follow a few single moves; concerted moves, several wraps around the cell and same-type exchanges are not reached.",
     [CC + "configuration.cpp", PY + "CoreComponents/KMCProcess.py", CC + "process.cpp"],
     [("identity update", CC + "configuration.cpp:performProcess"), ("move vectors", PY + "CoreComponents/KMCProcess.py, process.cpp constructor")],
     "Lockstep with a reference permutation of identities; states include the identities and, up to a bound, the unwrapped coordinates.",
     "explicit-state search of the real implementation with identity tracking as part of the state")

prop("C06", "Each step advances the clock by -ln(u)/R of the state being left",
     "For any draw u in (0,1) the time increment of a step is -ln(u)/R where R is the total rate of the state in which the system waited, so time is finite and never decreases, and a draw of exactly zero never makes it infinite. "
     "The clock of a model starts at zero and continues over repeated runs of the same model.",
     ["inputs", "histories"], "all sequences of draws over a boundary alphabet, split over two runs",
     "Tests use ordinary draws; extreme draws and the combination with changing totals need every sequence.",
     [CC + "simulationtimer.cpp", CC + "latticemodel.cpp", PY + "CoreComponents/KMCLatticeModel.py"],
     [("time step", CC + "simulationtimer.cpp:propagateTime"), ("order of time step and event", PY + "CoreComponents/KMCLatticeModel.py:run")],
     "Draw alphabet: smallest positive double to 1-2^-53 and exact zeros; compared at double precision.",
     "exhaustive enumeration of draw sequences on the real run loop against a closed formula")

prop("C07", "A seed determines the whole simulation, whatever ran before in the process",
     "Running a freshly built model with a given seed and generator type gives the same events, times, trajectory and analysis output every time, no matter which other models, generators or runs were used before it in the same process or how the run is observed (dump interval, analysis, trajectory). "
     "Each of the generator types delivers the stream of its standard generator for that seed, with every number in [0,1).",
     ["histories", "inputs"], "all short sequences of earlier activity (other runs, other generators, aborted runs) before a seeded run; all generator types and a range of seeds",
     "Tests compare two equal runs once with one generator.",
     [CC + "random.cpp", PY + "CoreComponents/KMCLatticeModel.py", PY + "CoreComponents/KMCControlParameters.py", CC + "latticemodel.cpp"],
     [("seeding", CC + "random.cpp:seedRandom, setRngType"), ("seeding before the run", PY + "CoreComponents/KMCLatticeModel.py:run")],
     "Reference streams are produced by an independent C++ program from the standard library and recomputed at check time.",
     "exhaustive enumeration of preceding activity sequences on the real implementation, compared run by run")

prop("C08", "The run loop honours its schedule: dumps, analysis, breakers, ends and failures",
     "A run takes exactly the requested number of steps unless a breaker stops it or no event is possible (which raises an error); trajectory dumps (by step interval or at equidistant times, at most one sample per step), analysis registrations and breaker evaluations happen at exactly their intervals, in order, with the step, time and configuration of that moment. "
     "Setup precedes the first step and, however the run ends (normally, by breaker, by dead end, by an exception from a rate calculator, an analysis registration or a breaker evaluation), the trajectory is flushed and every analysis is finalized exactly once.",
     ["fault_sequences", "histories", "configurations"], "all combinations of small intervals, numbers of analyses and breakers, breaker decisions and an exception at every callback",
     "Tests run a few interval combinations without failures.",
     [PY + "CoreComponents/KMCLatticeModel.py", PY + "CoreComponents/KMCControlParameters.py", PY + "PluginInterfaces/KMCBreakerPlugin.py", PY + "PluginInterfaces/KMCAnalysisPlugin.py"],
     [("loop", PY + "CoreComponents/KMCLatticeModel.py:run")],
     "The event log of the real run loop is compared with a reference automaton for every configuration and every fault position.",
     "fault injection at every callback and enumeration of all schedules of the real run loop against a reference automaton")

prop("C09", "Custom rates are evaluated on the right surroundings and are never stale",
     "With a custom rate calculator, the rate of every available event at any time equals the calculator's answer for the event's present surroundings: all sites within the cutoff (or the process extent, if larger; without a cutoff, the extent, at least one cell), their types before and after the event, the process number, the rate constant and the global coordinate. "
     "This holds after any history, including changes that only touch the surroundings within the cutoff, and for the builtin calculators as for those written in Python.",
     ["histories", "inputs"], "all reachable states and event histories of bounded models for calculators with cutoffs of one and more neighbour shells",
     "Tests check a few rates on one configuration and do not compare after arbitrary histories.",
     [CC + "latticemodel.cpp", CC + "customrateprocess.cpp", CC + "ratecalculator.cpp", CC + "configuration.cpp", CC + "matcher.cpp", PY + "PluginInterfaces/KMCRateCalculatorPlugin.py"],
     [("update of affected rates", CC + "latticemodel.cpp:singleStep, matcher.cpp:updateRates"), ("surroundings handed to Python", PY + "PluginInterfaces/KMCRateCalculatorPlugin.py:_backendRateCallback")],
     "Every rate held by the implementation is recomputed from the reference state by the same pure function.",
     "explicit-state search of the real implementation with recomputation of every rate from the reference state")

prop("C10", "Caching of custom rates is invisible, and the cache stays bounded",
     "With caching on, every rate used at any time is the one the calculator would give for that event's surroundings, so trajectories with and without caching coincide for the same seed, for any history and any set of processes excluded from caching. "
     "The rate store returns exactly what was stored for a key until it is evicted, keeps at most its stated number of entries, and evicts the oldest generation first.",
     ["histories", "inputs"], "all operation sequences of the rate store over colliding keys across its generations; all histories of bounded models with caching against no caching",
     "Tests insert a few keys; generations roll over only after thousands of entries.",
     [CC + "ratetable.cpp", CC + "hash.cpp", CC + "ratecalculator.cpp", CC + "matcher.cpp", CC + "latticemodel.cpp"],
     [("generations of the store", CC + "ratetable.cpp"), ("key of a surrounding", CC + "hash.cpp")],
     "The cached and the uncached implementation run in lockstep over all histories; the store is driven by all short operation sequences near the generation boundaries.",
     "explicit-state lockstep of cached and uncached implementation, and operation-sequence enumeration of the rate store")

prop("C11", "Lattice indexing, neighbours and wrapping describe one consistent geometry",
     "Site numbering, cell/basis look-ups, neighbour lists, super-cell lists, wrapping of displacements and global coordinates agree with one reference lattice for every basis, repetition and periodicity. "
     "Neighbourhoods are translation invariant in periodic directions and cut off at the border in non-periodic ones.",
     ["inputs"], "all lattices with up to a few repetitions per direction, all periodicities, several bases, all sites and shells",
     "Tests use a few lattices and spot-check lists.",
     [CC + "latticemap.cpp", CC + "coordinate.cpp", PY + "CoreComponents/KMCLattice.py", PY + "CoreComponents/KMCUnitCell.py", PY + "CoreComponents/KMCLocalConfiguration.py", PY + "Utilities/CoordinateUtilities.py"],
     [("index arithmetic", CC + "latticemap.cpp"), ("global coordinates", PY + "CoreComponents/KMCLattice.py")],
     "The domain is finite per bound and enumerated completely.",
     "complete enumeration of a bounded domain of lattices, sites and shells against a reference geometry")

prop("C12", "A script written from a model rebuilds the same model in its current state",
     "The script of a configuration, set of interactions, process, lattice, unit cell or local configuration, written at any point of a simulation, rebuilds an object that has the same lattice, occupations, types, processes and rate constants, to full floating point precision, so the rebuilt model has the same available events with the same rates. "
     "Reading a configuration, interactions or control parameters back from a file gives the same as executing the script, writing is repeatable, and the exported ATK script lists every mapped atom with its present type and unwrapped coordinate.",
     ["histories", "inputs"], "every reachable state of bounded models, and all small inputs in every accepted input format",
     "Tests compare the text of a few scripts of initial states.",
     [PY + "CoreComponents/KMCConfiguration.py", PY + "CoreComponents/KMCProcess.py", PY + "CoreComponents/KMCBucketProcess.py", PY + "CoreComponents/KMCInteractions.py", PY + "CoreComponents/KMCLatticeModel.py", PY + "CoreComponents/KMCUnitCell.py", PY + "CoreComponents/KMCLattice.py", PY + "CoreComponents/KMCLocalConfiguration.py", PY + "Utilities/SaveAndReadUtilities.py", PY + "Utilities/ConversionUtilities.py"],
     [("script of each component", PY + "CoreComponents/*.py:_script")],
     "Round trips are executed in every reachable state; the rebuilt model is compared by its observable behaviour.",
     "round trip through the generated script in every state of an explicit-state search")

prop("C13", "Trajectory files record each dumped step once, in order, whatever the buffering",
     "A trajectory file contains, after its header, exactly one complete section per dumped step in the order of dumping, with the step number, time, sites, types and unwrapped coordinates the configuration had at that moment. "
     "This holds for every schedule of internal buffer flushes (by size or by time), for runs that end early by a breaker, a dead end or an exception, and for all file formats and models with buckets.",
     ["schedules", "fault_sequences", "histories"], "all flush schedules (every subset of appends may flush by clock or by buffer size) and every end of the run",
     "Tests write tiny files that never exceed the buffer limits.",
     [PY + "Utilities/Trajectory/Trajectory.py", PY + "Utilities/Trajectory/LatticeTrajectory.py", PY + "Utilities/Trajectory/XYZTrajectory.py", PY + "CoreComponents/KMCLatticeModel.py"],
     [("buffering and flushing", PY + "Utilities/Trajectory/Trajectory.py:append, flush")],
     "The clock seen by the trajectory and the buffer limit are scripted; the file is parsed and compared with the recorded states.",
     "enumeration of all flush schedules and fault positions of the real writers, files parsed and compared")

prop("C14", "Models, configurations and interactions do not disturb each other",
     "Interleaving steps of several models in one process, or building several models from the same processes, rate calculator class or interactions, gives each model exactly the behaviour it has alone with the same random numbers (live models do not share a configuration; models made one after another on one configuration each start from its present state). "
     "Objects handed out by queries can be changed by the caller, and lists handed to constructors can be changed after the model is set up, without affecting the simulation.",
     ["schedules", "histories"], "all interleavings of the steps of two models for bounded lengths, over models that share components",
     "Tests run one model at a time.",
     [CC + "interactions.cpp", CC + "configuration.cpp", CC + "latticemap.cpp", CC + "ratecalculator.cpp", PY + "CoreComponents/KMCInteractions.py", PY + "CoreComponents/KMCLatticeModel.py", PY + "CoreComponents/KMCConfiguration.py"],
     [("shared static buffers", CC + "latticemap.cpp, configuration.cpp"), ("backend objects per configuration", PY + "CoreComponents/KMCInteractions.py:_backend")],
     "Steps of two real models are interleaved in every order; each must behave as in isolation.",
     "enumeration of all interleavings of two real models, compared with their isolated behaviour")

prop("C15", "Equivalent descriptions of a model give equivalent simulations",
     "The behaviour of a model does not depend on how it is written down: the order in which a process lists its non-central sites, a common shift of its coordinates, the order of the processes or of the possible types, the names of the types, the shape of the cell, explicit wildcards in place of implicit ones, short, long or bucket formats of the types, default types, optional arguments left out or given as documented, or rounding noise far below the matching tolerance in coordinates. "
     "Available events, rates and effects of every event are the same for all such descriptions in every reachable state.",
     ["inputs", "histories"], "all permutations, shifts and formats of bounded descriptions, over all reachable states",
     "Tests use one description per model.",
     [PY + "CoreComponents/KMCConfiguration.py", PY + "CoreComponents/KMCProcess.py", PY + "CoreComponents/KMCLocalConfiguration.py", PY + "Utilities/ConversionUtilities.py", CC + "matchlistentry.cpp", CC + "process.cpp", CC + "interactions.cpp"],
     [("sorting of match lists", CC + "matchlistentry.cpp:operator<"), ("type maps", PY + "CoreComponents/KMCInteractions.py")],
     "All descriptions of a bounded model are explored in lockstep.",
     "explicit-state lockstep exploration of all equivalent descriptions of bounded models")

prop("C16", "The on-the-fly mean square displacement equals its definition",
     "For any history of moves, the on-the-fly analysis reports for every time bin the sum, count and mean of the squared displacements (per Cartesian direction and combined) over all pairs of positions among the last history_steps recorded positions of the same atom (its position at setup, then one per event that lists it as moved and leaves it with the tracked type). "
     "Unmoved atoms, untracked types, times beyond the last bin and periodic wraps neither add nor lose anything, and the printed means and standard deviations follow from these numbers.",
     ["histories", "inputs"], "all histories of moves of bounded models for several history lengths, bin widths and cells",
     "Tests check a few fixed sequences.",
     [CC + "ontheflymsd.cpp", PY + "Analysis/OnTheFlyMSD.py", CC + "configuration.cpp"],
     [("history buffers", CC + "ontheflymsd.cpp:registerStep"), ("normalisation", PY + "Analysis/OnTheFlyMSD.py:finalize")],
     "All histories to a depth are replayed through the real analysis and compared with a direct double sum.",
     "enumeration of all event histories through the real analysis against a direct evaluation of the definition")

prop("C17", "The bundled analysis plug-ins report what their definitions say",
     "The composition analysis reports averages of the particle numbers over blocks that close at the first registered step later than the interval after their start, the process statistics count each executed process and report totals and rates per time, and the time-step distribution is the histogram of the time steps, for any history of steps and times. "
     "Registering the same history in parts or after another run of the same object's setup gives results that only depend on what was registered: a second setup continues the finished blocks.",
     ["histories", "inputs"], "all histories of registered steps over small time alphabets, including empty histories and boundary times",
     "Tests register a few steps.",
     [PY + "Analysis/Composition.py", PY + "Analysis/ProcessStatistics.py", PY + "Analysis/TimeStepDistribution.py"],
     [("block averages", PY + "Analysis/Composition.py:registerStep"), ("counts", PY + "Analysis/ProcessStatistics.py"), ("histogram", PY + "Analysis/TimeStepDistribution.py")],
     "All registration histories to a depth over boundary alphabets.",
     "enumeration of all registration histories over boundary alphabets against direct definitions")

prop("C18", "A run on any number of MPI ranks gives the serial result",
     "With the backend built for MPI, every number of ranks holds on every rank the same events, totals, times and configurations as the serial backend for the same seed, with constant and with custom rates. "
     "No rank waits for a message that never comes, also where there are fewer tasks than ranks.",
     ["configurations", "histories", "schedules"], "rank counts one to several, all histories to a depth, bounded models",
     "The tests only run with one process.",
     [CC + "mpiroutines.cpp", CC + "mpicommons.cpp", CC + "matcher.cpp", CC + "latticemodel.cpp", CC + "random.cpp", CC + "mpih.h"],
     [("splitting over processes", CC + "mpiroutines.h"), ("joining results", CC + "matcher.cpp:parallelMatch")],
     "No MPI library is installed: the ranks are real processes linked with a small shared-memory stand-in for the MPI calls used.",
     "lockstep execution of all ranks of the real MPI build over a shared-memory MPI stand-in, all bounded histories against the serial result")

prop("C19", "Invalid input raises the library's error; nothing crashes or corrupts memory",
     "Every constructor, setter and run call given malformed input (wrong type, shape, length or sign, numbers that are not finite, or an unknown name) raises the library's Error exception with the object unchanged, and never a crash, an endless loop or a silently wrong model. "
     "Valid models, with any number of particles on a site, run any bounded history without an invalid memory access.",
     ["inputs", "histories"], "all single defects of every argument of every public constructor, and pairs for related arguments; bounded histories under a memory checker",
     "Tests try a few wrong inputs per constructor and have no memory checking.",
     [PY + "Utilities/CheckUtilities.py", PY + "CoreComponents/KMCConfiguration.py", PY + "CoreComponents/KMCProcess.py", PY + "CoreComponents/KMCBucketProcess.py", PY + "CoreComponents/KMCBaseProcess.py", PY + "CoreComponents/KMCInteractions.py", PY + "CoreComponents/KMCControlParameters.py", PY + "CoreComponents/KMCUnitCell.py", PY + "CoreComponents/KMCLattice.py", PY + "CoreComponents/KMCLatticeModel.py", PY + "CoreComponents/KMCLocalConfiguration.py"],
     [("input checks", PY + "Utilities/CheckUtilities.py")],
     "Mutations are enumerated per argument; the backend runs under the address sanitizer.",
     "complete enumeration of single input defects, and explicit-state search of the backend under address and undefined-behaviour sanitizers")

prop("C20", "Bucket sites hold exactly the particles that processes put there",
     "For models whose sites hold any number of particles, a process is available exactly where every site holds at least its minimum numbers, each event adds and removes exactly its stated numbers, no count becomes negative, and counts per type are conserved as the processes prescribe. "
     "Empty sites, repeated particles in any notation and wildcards (alone in an entry) behave like their written meaning, and custom rates of bucket processes see the full occupation of every site.",
     ["histories", "inputs"], "all reachable bucket occupations up to a bound, all notations of small occupations",
     "Tests run one or two bucket models.",
     [CC + "typebucket.cpp", CC + "matchlistentry.cpp", CC + "configuration.cpp", PY + "CoreComponents/KMCBucketProcess.py", PY + "Utilities/ConversionUtilities.py", PY + "CoreComponents/KMCConfiguration.py"],
     [("minimum match", CC + "typebucket.h:match"), ("bucket updates", CC + "configuration.cpp:performBucketProcess"), ("notation", PY + "Utilities/ConversionUtilities.py")],
     "All reachable occupations below a bound on particles per site, in lockstep with a reference of multisets.",
     "explicit-state search of the real implementation in lockstep with a multiset reference")


def main():
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    py = "/opt/venv/bin/python"
    for p in P:
        c = "checks/%s.py" % p["id"].lower()
        if os.path.exists(os.path.join(V, c)):
            checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick %s %s" % (py, c), thorough_cmd="VERIF_TIER=thorough %s %s" % (py, c),
                               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="no check has been built yet"))
    json.dump(dict(version=1, setup_cmd="%s lib/build.py plain asan mpi" % py, checks=checks, not_applicable=na,
                   notes="No hooks in /repo: the only seam is a link-time replacement of randomDouble01 in the checks' own builds."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")


main()
