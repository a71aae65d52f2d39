"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)))

CPP = "pyvrp/cpp/"
prop("C01", "Duration segments compose exactly like the schedules they stand for",
 "A duration segment built by merging the segments of any sequence of visits (in any grouping), with arbitrary travel times, service durations, time windows and release times, reports exactly the minimum duration, the minimum time warp, the earliest and latest start times and the start-time slack of the schedule that visits that sequence in order. Merging is associative, and closing a trip at a depot (from the front or from the back) preserves the totals of the closed trip and the start constraints it places on the next or previous trip. Depot, client and vehicle segments carry exactly the service duration, time window, release time, shift window and latest start of the object they are made from.",
 ["inputs"], "all integer durations, windows, release times and travel times in the supported range; all sequences and all groupings of them",
 "test_duration_segment.py samples a few concrete segments and instances; associativity and equality with a simulated schedule are statements over all integer inputs and all groupings.",
 [CPP+"DurationSegment.h", CPP+"DurationSegment.cpp"],
 [("DurationSegment::merge", CPP+"DurationSegment.h"), ("DurationSegment::finaliseFront/finaliseBack", CPP+"DurationSegment.cpp"), ("slack/startEarly/startLate/duration/timeWarp", CPP+"DurationSegment.h")],
 ["pyvrp._pyvrp.DurationSegment"])
prop("C02", "Load segments compose exactly like the loads they stand for",
 "A load segment stands for a sequence of visits: its initial load, net change (delta) and largest increase over the start, hence the maximum load on board at any point, are exactly those of the sequence, whichever way the visits are grouped when merging. Its excess over a given capacity is exactly the excess of that maximum load, plus the excess carried over from trips that were already closed. Merging is associative; closing a trip adds its excess over the capacity exactly once and starts the next trip empty. Segments made from clients, shipments and vehicle types carry exactly the delivery, pickup, shipment and initial amounts of that object and dimension.",
 ["inputs"], "all non-negative delivery/pickup/shipment amounts and capacities, all sequences and all groupings",
 "test_load_segment.py samples concrete values; the maximum-prefix characterisation and associativity quantify over all values.",
 [CPP+"LoadSegment.h", CPP+"LoadSegment.cpp"],
 [("LoadSegment::merge/finalise/excessLoad", CPP+"LoadSegment.h")], ["pyvrp._pyvrp.LoadSegment"])
prop("C03", "A route's reported statistics equal those of driving the route",
 "For every problem and every valid visit sequence, a route's distance, duration, time warp, start and end times, slack, overtime, travel, service and wait durations, delivery and pickup loads, excess distance, excess load, prizes, fixed, distance and duration cost, visit counts and feasibility flags equal what a step by step simulation of the route yields. This includes routes with several trips and reload depots, release times, shipments, initial loads, start-late limits and unit overtime costs. Its schedule lists every visit in order with start and end service times consistent with travel times, waiting and time warp, and is consistent with the totals.",
 ["inputs"], "all problem instances, all vehicle types and all valid visit sequences (any number of trips and load dimensions)",
 "test_Route.py checks hand-computed values for small cases; the interaction of release times, multiple trips, shipments and multi-dimensional load is over an unbounded input space.",
 [CPP+"Route.cpp", CPP+"Route.h"],
 [("Route constructor: setSchedule/setDistance/setLoad/setOtherStatistics", CPP+"Route.cpp")],
 ["pyvrp.Route properties"])
prop("C04", "Routes and solutions are accepted exactly when structurally valid",
 "Constructing a route succeeds if and only if its vehicle type exists, all its visits refer to existing clients, shipments and depots, it has no more trips than the vehicle type allows, and every shipment on it is picked up exactly once and then delivered exactly once within the same trip. Constructing a solution succeeds if and only if in addition it has no empty routes, not more routes than there are vehicles, no client or shipment is visited more than once overall, at most one member of each mutually exclusive group is visited, and no vehicle type is used more often than is available. Randomly generated solutions are always accepted, visit every required client and shipment and one member of every required group, and never more than one member of a group.",
 ["inputs"], "all problem instances, all visit lists and all sets of routes; all random seeds",
 "Tests try individual invalid inputs; the 'if and only if' ranges over every visit list.",
 [CPP+"Route.cpp", CPP+"Solution.cpp"],
 [("Route::validate", CPP+"Route.cpp"), ("Solution constructors", CPP+"Solution.cpp")], ["pyvrp.Route(...)", "pyvrp.Solution(...)", "Solution.make_random"])
prop("C05", "A solution's totals and feasibility follow from its routes",
 "For every solution, distance, duration, overtime, excess load and distance, time warp, fixed, distance and duration costs, numbers of routes, trips, clients and shipments, collected and uncollected prizes, and the numbers of missing required clients, shipments and groups, equal the sums or counts that follow from its routes and the problem. The solution is complete exactly when nothing required is missing, and it is feasible exactly when it is complete and has no excess load, no time warp and no excess distance. The list of unplanned activities is exactly the complement of what the routes visit.",
 ["inputs"], "all problem instances and all valid sets of routes",
 "Tests check some totals on sampled solutions; the correspondence must hold for every combination of prizes, groups, shipments and routes.",
 [CPP+"Solution.cpp", CPP+"Solution.h"], [("Solution::evaluate", CPP+"Solution.cpp")], ["pyvrp.Solution properties"])
prop("C06", "Costs are the documented objective; infeasible solutions never look cheap",
 "The penalised cost of any route or solution equals its distance, duration and fixed vehicle costs, plus uncollected prizes, plus each of excess load, time warp and excess distance times its penalty weight; every penalty term is zero at or below its limit, never negative, and non-decreasing in the violation. The (unpenalised) cost equals the penalised cost for a feasible solution and is the largest representable value for an infeasible one. Penalty weights that are negative are rejected.",
 ["inputs"], "all non-negative penalty vectors, all routes and solutions",
 "Unit tests evaluate a handful of solutions with fixed penalties.",
 [CPP+"CostEvaluator.h", CPP+"CostEvaluator.cpp"],
 [("CostEvaluator::penalisedCost/cost/loadPenalty/twPenalty/distPenalty", CPP+"CostEvaluator.h")], ["pyvrp.CostEvaluator"])
prop("C07", "The search's cached route data always matches its visit sequence",
 "After any sequence of insertions, removals, swaps and clears on a search route followed by an update, every cached quantity (prefix and suffix distance, duration and load data, position and trip of each visit, counts of trips, clients and depots, capacity, feasibility and total excesses) equals the value computed from scratch from the route's current visits. Loading any solution into the search representation and exporting it again yields an equal solution.",
 ["histories", "inputs"], "all problem instances and all edit histories of a route; all solutions",
 "The tests replay a few fixed edit sequences; cache coherence must hold after every history.",
 [CPP+"search/Route.h", CPP+"search/Route.cpp", CPP+"search/Solution.cpp"],
 [("Route::update/insert/remove/swap/clear", CPP+"search/Route.cpp"), ("Solution::load/unload", CPP+"search/Solution.cpp")],
 ["pyvrp.search._search.Route", "pyvrp.search._search.Solution"])
prop("C08", "Move evaluations are exact: a predicted cost change is what applying gives",
 "Whenever a local search operator evaluates a candidate move and says it should be applied, applying it changes the total penalised cost by exactly the predicted amount, in all cost components: distance, duration, time warp, load, fixed vehicle and prizes; the same holds for the cost of inserting or removing visits and for the insertion search, which inserts at a position of least cost among those it documents to consider (neighbours' routes and the first empty route of each vehicle type). A move whose exact change would be an improvement is never reported as non-improving because of early exits or skipped cost terms. Applied moves keep every required visit, visit no client twice, keep shipments paired, ordered and within one trip, respect group exclusivity and never exceed the allowed trips.",
 ["inputs", "histories"], "all problems, all search states, all operators and all node pairs, all penalty weights",
 "Operator tests check a few hand-made moves per operator; exactness must hold for every state and every operator.",
 [CPP+"search/Relocate.h", CPP+"search/Swap.h", CPP+"search/SwapTails.cpp", CPP+"CostEvaluator.h", CPP+"search/Route.h", CPP+"search/RelocateShipment.cpp", CPP+"search/RelocateAlternative.cpp", CPP+"search/RelocateWithDepot.cpp", CPP+"search/RemoveAdjacentDepot.cpp", CPP+"search/ReplaceGroup.cpp", CPP+"search/InsertOptionalClient.cpp", CPP+"search/RemoveOptionalClient.cpp"],
 [("CostEvaluator::deltaCost", CPP+"CostEvaluator.h"), ("Proposal and segments", CPP+"search/Route.h"), ("operator evaluate/apply", CPP+"search/")],
 ["pyvrp.search operators' evaluate/apply", "pyvrp.search._search insert/remove cost"])
prop("C09", "Local search returns valid, complete solutions that are never worse",
 "Given any starting solution, local search returns a structurally valid solution that visits all required clients and shipments and respects mutually exclusive groups; without perturbation, its penalised cost is never higher than that of a complete starting solution. The input solution is not modified, and applying the search again to a returned local optimum does not make it worse. With perturbation, the number of perturbations per call lies between the configured minimum and maximum.",
 ["inputs", "histories"], "all problems, all starting solutions, all operator sets, all seeds and penalty weights",
 "Tests run the search on two or three benchmark instances with few seeds.",
 [CPP+"search/LocalSearch.cpp", CPP+"search/Solution.cpp", CPP+"search/PerturbationManager.cpp"],
 [("LocalSearch::operator()/search/improveWithOperators/ensureStructuralFeasibility", CPP+"search/LocalSearch.cpp"), ("PerturbationManager", CPP+"search/PerturbationManager.cpp")],
 ["pyvrp.search.LocalSearch"])
prop("C10", "Invalid problem data is rejected, valid data is stored unchanged",
 "Constructing a location, client, depot, shipment, client group, vehicle type or problem succeeds exactly when all documented domain rules hold (ordered and non-negative time windows, non-negative amounts and durations, release times within windows, initial loads within capacities, at least one vehicle, required members of exclusive groups, windows of start and end depots overlapping those of the vehicle, existing indices, matching dimensions, matrices with zero diagonals, and so on), and otherwise raises an error. Everything that was passed in is reported back unchanged, and aggregate counts (numbers of clients, depots, shipments, vehicles, dimensions, profiles) equal those of the data passed in. Replacing some fields leaves all the other fields as they were.",
 ["inputs"], "all argument combinations, including corner values",
 "Tests sample individual bad values; exactness (accepts all valid, rejects all invalid) is over the entire argument space.",
 [CPP+"Client.cpp", CPP+"Depot.cpp", CPP+"Shipment.cpp", CPP+"VehicleType.cpp", CPP+"ClientGroup.cpp", CPP+"ProblemData.cpp"],
 [("constructors", CPP), ("ProblemData::validate/replace", CPP+"ProblemData.cpp")], ["pyvrp constructors"])
prop("C11", "Copies and pickles are equal to the original; equality is faithful",
 "For every public data object (locations, clients, depots, shipments, groups, vehicle types, problems, activities, scheduled activities, routes, solutions, piecewise linear functions and bit sets), pickling and unpickling, or copying, yields an object that is equal and reports the same value for every public attribute, also when used in further computation. Two data objects compare equal exactly when all their fields are equal; two routes of a problem exactly when vehicle type and visits are; two solutions exactly when their routes are, in any order. Equality is symmetric and equal hashable objects have equal hashes.",
 ["inputs"], "all objects with all field values",
 "Tests pickle one or two examples per class and compare with ==, which does not look at every attribute.",
 [CPP+"bindings.cpp", CPP+"Route.cpp", CPP+"Solution.cpp", CPP+"ProblemData.cpp", CPP+"VehicleType.cpp", CPP+"Client.cpp", CPP+"Shipment.cpp", CPP+"Depot.cpp", CPP+"ClientGroup.cpp", CPP+"Location.cpp"],
 [("operator==", CPP), ("__getstate__/__setstate__", CPP+"bindings.cpp")], ["pickle.loads(pickle.dumps(x))", "=="])
prop("C12", "Bit sets behave as finite sets of indices",
 "For every size (rounded up to a multiple of 64) and any history of set, reset and bulk operations, a dynamic bit set behaves like a set of indices below its size: membership, count, all/any/none, union, intersection, symmetric difference, complement and equality agree with the set operations. Operations never change bits other than those asked for.",
 ["inputs", "histories"], "all sizes, all contents, all operation histories",
 "Tests use a few fixed sizes and patterns.",
 [CPP+"DynamicBitset.h", CPP+"DynamicBitset.cpp"], [("DynamicBitset", CPP+"DynamicBitset.cpp")], ["pyvrp._pyvrp.DynamicBitset"])
prop("C13", "The random number generator is deterministic and stays in range",
 "Two generators created from the same seed or state produce the same sequence of values, which is the xorshift128 sequence; exporting the state and creating a new generator from it continues the same sequence. Bounded integers lie in [0, high), floats lie in [0, 1], and shuffling produces a permutation of its input.",
 ["inputs", "histories"], "all 2^128 states, all bounds and all lengths",
 "Tests compare a few values for one seed and sample averages.",
 [CPP+"RandomNumberGenerator.h", CPP+"RandomNumberGenerator.cpp"], [("operator()/randint/rand/shuffle/state", CPP+"RandomNumberGenerator.h")], ["pyvrp.RandomNumberGenerator"])
prop("C14", "Neighbourhoods list exactly the closest admissible visits",
 "For every problem and parameters, the computed neighbourhood has one list for every client and every pickup, each listing distinct valid activities other than itself and its own delivery, at most the requested number and that many where available (up to the documented size), in order of proximity, and such that no left-out admissible activity is strictly closer than a listed one under the documented proximity: the least cost (distance and duration costs plus weighted minimum wait) over vehicle types, in both directions if symmetric, from either step of a shipment; infeasible arcs and members of the same group come last. Setting a neighbourhood in the search rejects structures of the wrong size, for the wrong activities or with self-references, and what is stored is what is reported back. The promising visits are exactly those marked (a marked node also marks its neighbours in the route) since the last reset.",
 ["inputs"], "all problems, all neighbourhood parameters",
 "Tests check one benchmark instance with a few parameter settings.",
 [CPP+"search/neighbourhood.cpp", CPP+"search/SearchSpace.cpp", "pyvrp/search/neighbourhood.py"],
 [("computeNeighbours", CPP+"search/neighbourhood.cpp"), ("SearchSpace", CPP+"search/SearchSpace.cpp")], ["pyvrp.search.compute_neighbours", "pyvrp.search.SearchSpace"])
prop("C15", "Penalty management keeps penalties bounded and moves them the right way",
 "After any history of registered solutions, every penalty weight lies within the configured minimum and maximum. At each scheduled update (every given number of registrations), the weight for a constraint is multiplied by the decrease factor when the fraction of recently feasible solutions exceeds the target by at least the tolerance, multiplied by the increase factor when it falls short by at least the tolerance (in both cases limited to the bounds), and otherwise stays as it was; registrations between updates change nothing, and each update looks at exactly the registrations since the previous one. Cost evaluators handed out carry exactly the current (or maximum) weights, initial weights are the midpoint of the bounds, given ones are limited to the bounds, and parameters outside their documented domains are rejected.",
 ["histories", "inputs"], "all parameter settings and all histories of registered solutions",
 "Tests drive a few hand-made histories.",
 ["pyvrp/PenaltyManager.py"], [("PenaltyManager._compute/register/_register/init_from", "pyvrp/PenaltyManager.py"), ("PenaltyParams.__post_init__", "pyvrp/PenaltyManager.py")],
 ["pyvrp.PenaltyManager"])
prop("C16", "Stopping criteria stop exactly when documented",
 "Max-iterations stops exactly from the call after the given number of calls on; no-improvement stops exactly when the given number of calls has passed without a strictly better best cost since the last improvement; first-feasible stops exactly when the best cost is that of a feasible solution; max-runtime stops exactly when the elapsed time since its first call exceeds the limit; a multiple criterion stops exactly when at least one member says so, and every member observes every call that precedes the stop. Negative limits and empty lists of criteria are rejected.",
 ["histories"], "all limits and all sequences of best costs",
 "Tests step through short sequences of costs.",
 ["pyvrp/stop/MaxIterations.py", "pyvrp/stop/NoImprovement.py", "pyvrp/stop/FirstFeasible.py", "pyvrp/stop/MaxRuntime.py", "pyvrp/stop/MultipleCriteria.py"],
 [("__call__", "pyvrp/stop/")], ["pyvrp.stop"])
prop("C17", "The search history buffer is a first-in first-out window",
 "A ring buffer of capacity n is a cycle of n slots: every append or skip advances to the next slot, an append overwrites what is there. For every history, peeking returns exactly the value appended last into the slot that comes next (none if there was none since the last clear), so never a value that has been overwritten or cleared; its length is the number of occupied slots and its capacity never changes.",
 ["histories"], "all capacities and all histories of append, peek, skip, index and clear",
 "Tests use small fixed histories.",
 ["pyvrp/RingBuffer.py"], [("RingBuffer", "pyvrp/RingBuffer.py")], ["pyvrp.RingBuffer.RingBuffer"])
prop("C18", "The solver returns the best solution it has seen and honest statistics",
 "For every sequence of candidates returned by the search method (whose exhaustive mode does not worsen a solution), every penalty history, stopping criterion and restart pattern, iterated local search returns a best solution whose cost is no higher than that of the initial solution or of any candidate produced during the run, with the number of iterations and the collected statistics equal to what happened. It continues from a candidate exactly when it is cheaper than the current solution or than the one the given number of iterations ago, and restarts from the best solution exactly after the given number of iterations without improvement. The result's cost, feasibility and summary are those of the best solution. The best cost that the stopping criterion sees never gets worse over the run.",
 ["histories"], "all sequences of candidate solutions, parameters, restarts and stops",
 "Tests run the algorithm on one instance for few iterations.",
 ["pyvrp/IteratedLocalSearch.py", "pyvrp/Result.py"], [("IteratedLocalSearch.run", "pyvrp/IteratedLocalSearch.py"), ("Result", "pyvrp/Result.py")],
 ["pyvrp.IteratedLocalSearch.run", "pyvrp.Result"])
prop("C19", "The modelling interface builds exactly the problem that was described",
 "For every sequence of additions of locations, depots, clients, shipments, groups, vehicle types, profiles and edges, the problem data built contains exactly those objects in the order they were added, with every reference (client group members, locations, depots of vehicle types, profiles) resolved to the object given, also when other objects look equal; references to objects that are not in the model are rejected. Each profile's distance and duration matrices contain the last profile-specific edge if one was given, otherwise the last general edge, otherwise the missing value, with zeros on the diagonal. Importing existing data and exporting it again yields equal data, and changing a model never changes the data it was made from.",
 ["inputs", "histories"], "all sequences of modelling calls",
 "Tests build a handful of models.",
 ["pyvrp/Model.py"], [("Model.data/from_data/add_*", "pyvrp/Model.py")], ["pyvrp.Model"])
prop("C20", "Piecewise linear functions evaluate the segments they were given",
 "For every strictly increasing list of breakpoints and list of one more (intercept, slope) segments, evaluating the function at any point uses exactly the segment whose half-open interval between breakpoints contains that point (a breakpoint belongs to the segment on its right), and returns its intercept plus slope times the value. Functions built from points pass through these points, with a jump where two points have the same x. The function is reported as monotonically increasing exactly when it is. Malformed breakpoints, segments or points are rejected. Functions compare equal exactly when their breakpoints and segments are the same.",
 ["inputs"], "all breakpoint lists and all points",
 "Tests evaluate a few points of a few functions.",
 [CPP+"PiecewiseLinearFunction.h"], [("PiecewiseLinearFunction", CPP+"PiecewiseLinearFunction.h")], ["PiecewiseLinearFunction"])
prop("C21", "Fleet minimisation returns a smaller fleet that still suffices",
 "For every single-vehicle-type problem without optional clients and whatever the solver returns, fleet minimisation returns a vehicle type that equals the given one except for the number of vehicles, which is at least one, never larger than before, and never below the capacity lower bound unless the fleet was already smaller; the count returned is one with which a feasible solution was found, or the original count. The given problem is not changed. Other kinds of problems are rejected.",
 ["inputs", "histories"], "all problems in scope and all solver outcomes",
 "Tests run two instances.",
 ["pyvrp/minimise_fleet.py"], [("minimise_fleet/_lower_bound", "pyvrp/minimise_fleet.py")], ["pyvrp.minimise_fleet"])
prop("C22", "Reading instance and solution files reproduces the described problem",
 "Reading a VRPLIB instance yields the problem the file describes under the documented field semantics and the given rounding function, and reading back a written solution yields the same routes.",
 ["inputs"], "all files in the supported format", "Tests read the bundled instances.",
 ["pyvrp/read.py"], [("read/read_solution", "pyvrp/read.py")], ["pyvrp.read"])
prop("C23", "Solving is reproducible from the seed",
 "Solving the same problem with the same parameters, seed and iteration limit yields the same solution and statistics (other than runtimes) every time.",
 ["histories"], "all problems, seeds and parameters", "Tests compare two runs on one instance.",
 ["pyvrp/solve.py", "pyvrp/IteratedLocalSearch.py", CPP+"search/LocalSearch.cpp"], [("RandomNumberGenerator threading", "pyvrp/solve.py")], ["pyvrp.solve"])
out = pathlib.Path(__file__).parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
