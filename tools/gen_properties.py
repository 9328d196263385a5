"""Writes properties.jsonl (kept as Python for readability)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=[observe],
            ),
        )
    )


prop("C01", "Route statistics equal step-by-step execution of the route",
"For every valid instance and every legal sequence of visits (clients, shipment pickups and deliveries, reload stops) by a vehicle, every statistic the route reports - distance, duration, travel, service and waiting time, overtime, time warp, delivered and picked-up load, excess load and distance, release time, prizes, fixed, distance and duration cost, and the feasibility flags - equals what results from executing the route stop by stop. The execution starts at the time that first minimises time warp and then duration, respects the vehicle's shift, latest start, depot opening hours, release times per trip, and empties/refills the vehicle at each reload.",
["inputs"], "all instances and all legal routes",
"Unit tests check a few hand-computed routes; the interactions of windows, release times, reloads, overtime, multi-dimensional loads, initial loads and shipments are combinatorial.",
["pyvrp/cpp/Route.cpp", "pyvrp/cpp/DurationSegment.h", "pyvrp/cpp/LoadSegment.h"],
[("segment concatenation", "DurationSegment::merge, LoadSegment::merge"), ("route statistics", "Route::Route, setSchedule, setLoad")],
"Route's accessors")

prop("C02", "Route timetables are executable and report the true slack",
"For every valid instance and every legal route, the reported start time is the earliest among the best possible starts, the slack is exactly how much later the route may start without getting worse, and the per-stop schedule (trip number, start, end, waiting time, time warp of each stop) is the stop-by-stop execution from that start time. For a time-feasible route every scheduled visit lies inside its time window, total waiting equals the route's waiting time, and the last visit ends at the route's end time.",
["inputs"], "all instances and all legal routes",
"Tests look at few schedules; whether the start time is optimal requires comparing to all other start times.",
["pyvrp/cpp/Route.cpp", "pyvrp/cpp/DurationSegment.h"],
[("schedule", "Route::setSchedule"), ("start time and slack", "DurationSegment::startEarly, startLate, slack")],
"Route.schedule(), start_time(), end_time(), slack()")

prop("C03", "Solutions account exactly for their routes and reject illegal ones",
"A solution is accepted if and only if its routes are legal: every referenced client, depot and shipment exists, no visit is repeated, each shipment is picked up and delivered once, in order, within one trip, no route is empty, no vehicle type is used more often than available, no route has more trips than its vehicle allows, and at most one client of a mutually exclusive group is visited. For every accepted solution the totals, counts, missing clients/groups/shipments, unplanned activities, collected and uncollected prizes, completeness and feasibility equal those recomputed from its routes, independent of the order in which the routes are given.",
["inputs"], "all instances, all sets of routes, legal or not",
"Rejection rules and totals must hold for every combination of routes, groups, optional and required visits.",
["pyvrp/cpp/Solution.cpp", "pyvrp/cpp/Route.cpp"],
[("validation", "Solution::Solution, Route::validate"), ("aggregation", "Solution::evaluate")],
"Solution's constructor and accessors")

prop("C04", "Objective values equal the documented objective",
"For every instance, solution and penalty values, the penalised cost equals fixed, distance, duration and overtime costs plus uncollected prizes plus each violation (per-dimension excess load, time warp, excess distance) times its penalty; the (unpenalised) cost equals the penalised cost when the solution is feasible and complete and is the maximum value otherwise. Individual penalty terms are zero exactly when nothing is violated and grow with the violation.",
["inputs"], "all instances, routes, solutions and penalty weights",
"The objective is a sum of many independently switched terms; tests cover a few combinations.",
["pyvrp/cpp/CostEvaluator.h", "pyvrp/cpp/CostEvaluator.cpp"],
[("objective", "CostEvaluator::penalisedCost, cost"), ("penalties", "loadPenalty, twPenalty, distPenalty")],
"CostEvaluator.cost, penalised_cost, *_penalty")

prop("C05", "Local search moves are valued exactly and keep solutions legal",
"Whenever a local search move, evaluated in any search state, is reported as worth applying, applying it yields a legal solution whose penalised cost differs from the previous one by exactly the reported change, and that change is an improvement (a redundant-depot removal may be cost-neutral). Moves never lose, duplicate or split required visits, shipments or groups, never exceed the number of trips, and evaluating a move changes nothing.",
["inputs", "histories"], "all instances, solutions (feasible or not), moves and penalty weights",
"Each move has many cases (same/different route, adjacent nodes, depots, shipments, vehicle types); tests sample few combinations.",
["pyvrp/cpp/search/Swap.h", "pyvrp/cpp/search/Relocate.h", "pyvrp/cpp/search/SwapTails.cpp", "pyvrp/cpp/search/RelocateWithDepot.cpp", "pyvrp/cpp/search/InsertOptionalClient.cpp", "pyvrp/cpp/CostEvaluator.h"],
[("delta evaluation", "CostEvaluator::deltaCost, Route::Proposal"), ("operators", "pyvrp/cpp/search/*.cpp evaluate/apply")],
"operator evaluate()/apply(), Solution.unload()")

prop("C06", "Search routes stay consistent under any sequence of edits",
"After any sequence of insertions, removals, swaps and clears followed by an update, a search route reports exactly the statistics, node positions, trip numbers and partial (prefix, suffix, in-between) distances, loads and durations of a freshly built route with the same visits. Loading a solution into the search representation and unloading it returns an equal solution, whatever was loaded before.",
["histories"], "all edit sequences on a route",
"State is cached incrementally; errors need particular edit histories that unit tests do not enumerate.",
["pyvrp/cpp/search/Route.cpp", "pyvrp/cpp/search/Route.h", "pyvrp/cpp/search/Solution.cpp"],
[("incremental state", "search::Route::insert/remove/swap/clear/update"), ("load/unload", "search::Solution::load, unload")],
"search.Route, search.Solution")

prop("C07", "Exhaustive local search returns legal, complete, no-worse optima",
"For every instance, starting solution, penalty weights and random seed, an exhaustive local search terminates and returns a legal solution in which every required client, group and shipment that was or was not in the start solution is planned exactly once, and whose penalised cost is no worse than a complete start solution's. No configured move of a single visit (also inserting or removing an optional one), nor one into an unused vehicle of any type, can still improve the returned solution; and on instances with only required visits no configured pairwise move between neighbouring visits can, either. The same holds, after a search step that is not exhaustive, for the visits that it had to insert.",
["inputs", "schedules"], "all start solutions, move orders and penalty weights",
"The result depends on the interplay of many moves, caches and randomised orders.",
["pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/search/LocalSearch.py", "pyvrp/cpp/search/Solution.cpp"],
[("search loop", "LocalSearch::search, applyUnaryOps, applyBinaryOps, applyEmptyRouteMoves"), ("completion of missing required visits", "LocalSearch::ensureStructuralFeasibility, Solution::insert")],
"LocalSearch.__call__(..., exhaustive=True)")

prop("C08", "Local search is a function of its input, not of its history",
"A local search object gives the same result for the same solution, penalty weights and shuffling, whatever solutions it was used on before, however its random order was reached, and also when compared to a freshly constructed object; it never modifies the solution, instance or neighbourhood it was given. Its statistics and its neighbourhood setting reflect only what was asked of it.",
["histories"], "all histories of previous calls",
"Internal caches, timestamps and promising-marks persist between calls; stale state only shows after particular call histories.",
["pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/cpp/search/SearchSpace.cpp", "pyvrp/cpp/search/RemoveOptionalClient.cpp"],
[("operator caches", "operator init/update"), ("search space marks", "SearchSpace")],
"sequences of LocalSearch calls")

prop("C09", "Perturbed search always yields legal, complete solutions",
"For every instance, starting solution (complete or not, feasible or not), perturbation strength and random seed, one perturbation-and-repair step of the search returns a legal solution in which every required client, group and shipment is planned exactly once and nothing is visited twice. The perturbation itself changes (removes if planned, inserts if not) exactly the configured number of client and shipment visits, or all of them if there are fewer, never breaks up a shipment or plans two members of a group, and draws a strength within the configured bounds, each of which can occur.",
["inputs", "schedules"], "all start solutions, seeds and perturbation strengths",
"Perturbation explores random removals/insertions; only particular draws reach corner cases.",
["pyvrp/cpp/search/PerturbationManager.cpp", "pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/cpp/search/Solution.cpp"],
[("perturbation", "PerturbationManager::perturb"), ("repair", "LocalSearch::operator()")],
"LocalSearch.__call__, PerturbationManager.perturb")

prop("C10", "Iterated search keeps the best solution and follows its acceptance rule",
"For every sequence of candidate solutions the search method produces, the iterated local search runs exactly until its stopping criterion fires, returns the best solution seen (the initial solution if nothing better was found, a feasible solution always over an infeasible one), accepts and rejects candidates and restarts from the best solution according to its documented late-acceptance rule, and registers every candidate of the regular search exactly once with the penalty manager. Statistics have one entry per iteration with the true costs and feasibility, and observers see every event once, in order, and do not influence the result.",
["histories"], "all sequences of candidates and stopping decisions",
"The behaviour depends on the history of candidate costs; tests try few histories.",
["pyvrp/IteratedLocalSearch.py", "pyvrp/Statistics.py", "pyvrp/Result.py", "pyvrp/RingBuffer.py"],
[("main loop", "IteratedLocalSearch.run"), ("history", "RingBuffer"), ("statistics", "Statistics.collect")],
"IteratedLocalSearch.run, Result, Statistics")

prop("C11", "Stopping criteria stop exactly when documented",
"For every history of best costs and clock readings: an iteration limit stops after exactly that many iterations, a runtime limit stops once the time elapsed since its first use exceeds it, a no-improvement limit stops after exactly that many successive iterations without a strictly better best cost, a first-feasible criterion stops as soon as the best cost is finite, and a combination stops exactly when at least one of its members does. Criteria do not influence each other, invalid limits are rejected.",
["histories"], "all histories of best costs and clock readings",
"Off-by-one and reset errors depend on particular histories and clock readings.",
["pyvrp/stop/MaxIterations.py", "pyvrp/stop/MaxRuntime.py", "pyvrp/stop/NoImprovement.py", "pyvrp/stop/FirstFeasible.py", "pyvrp/stop/MultipleCriteria.py"],
[("criteria", "__call__ of each class")],
"the criteria called directly")

prop("C12", "Penalty weights adapt as documented and stay within bounds",
"For every history of registered solutions, each penalty weight (per load dimension, time warp, distance) is updated only once the configured number of solutions has been registered since its last update, from the share of feasible ones among those alone: it increases when too few and decreases when too many are feasible, stays as it is when within tolerance, always stays within the configured bounds, and does not depend on the other weights. Evaluators handed out use the current (or, for the maximum evaluator, the largest allowed) weights, and a warning is given exactly when, at an update, a weight already is at its maximum, too few solutions are feasible, and the average violation did not decrease. The initial weights are the given ones, clipped to the bounds.",
["histories"], "all histories of registered solutions, all parameters",
"Updates depend on the full history of registrations across several penalty dimensions.",
["pyvrp/PenaltyManager.py"],
[("update", "PenaltyManager.register, _register, _compute"), ("initialisation", "PenaltyManager.__init__, PenaltyParams.midpoint_penalties")],
"PenaltyManager.penalties(), cost_evaluator(), max_cost_evaluator()")

prop("C13", "Solving is reproducible from the seed",
"For every instance, parameters, initial solution and seed, solving with the same iteration limit gives the same trajectory of solutions, the same best solution and the same statistics, regardless of whether progress is displayed or statistics are collected, of what else was solved earlier or is solved concurrently in the process, and of the hash randomisation of the interpreter; a smaller iteration limit gives a prefix of it. Solving does not modify the instance or the initial solution.",
["histories", "configurations"], "all instances, seeds and earlier activity",
"Hidden global state or unordered iteration only shows across particular histories of runs.",
["pyvrp/solve.py", "pyvrp/IteratedLocalSearch.py", "pyvrp/search/__init__.py", "pyvrp/cpp/RandomNumberGenerator.cpp"],
[("seeding", "solve"), ("random numbers", "RandomNumberGenerator")],
"solve(), Model.solve()")

prop("C14", "Solve results are sound and never beat the true optimum",
"For every instance and seed, the result reported by solving is a legal solution: if it is reported feasible, it is complete, satisfies every capacity, time, distance, duration, reload and group restriction when executed stop by stop, and its reported cost equals the documented objective of its routes and is never below the true optimum. During a run the best cost never gets worse, and starting from a given feasible solution never ends with a worse one. The solver reports a feasible solution only if one exists, and finds one on very small instances with at most one kind of restriction.",
["inputs"], "all small instances and seeds",
"Requires comparing with brute-force optima over all solutions.",
["pyvrp/solve.py", "pyvrp/IteratedLocalSearch.py", "pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/Result.py"],
[("whole pipeline", "solve")],
"Result of solve()")

prop("C15", "Neighbourhoods contain the closest other visits only",
"For every instance and parameters, the computed neighbourhood lists, for each client and shipment pickup, distinct other visits (never itself, its own delivery or a depot), exactly as many as requested or as are available, being the closest ones in order of the documented proximity (cheapest over vehicle types and profiles, weighing distance cost, duration cost and minimal waiting time, symmetrised if asked for), with members of the same mutually exclusive group and unreachable visits last. The result does not depend on anything but the instance and parameters, and invalid parameters are rejected.",
["inputs", "configurations"], "all instances and neighbourhood parameters",
"Proximity combines many terms and symmetrisation; tests check few cases.",
["pyvrp/cpp/search/neighbourhood.cpp", "pyvrp/search/neighbourhood.py"],
[("proximity", "compute_neighbours")],
"compute_neighbours()")

prop("C16", "Models faithfully become problem data",
"For every sequence of model-building calls (locations, depots, clients, groups, shipments, profiles, vehicle types, edges, in any order), the resulting problem data contains exactly the described entities with the given attributes, each referring to the right locations, depots, groups and profiles, and matrices with the given edge values: the last value for a repeated edge, profile-specific values over general ones, zero on the diagonal and the prohibitively large maximum value for missing edges. Converting problem data to a model and back gives equal data, and calls with foreign or invalid arguments are rejected.",
["histories"], "all sequences of model-building calls",
"The order and mixture of calls is combinatorial.",
["pyvrp/Model.py"],
[("builder", "Model.add_*, Model.data, Model.from_data")],
"Model.data()")

prop("C17", "Invalid instance data is rejected, valid data preserved exactly",
"For every instance description, construction succeeds if and only if all documented restrictions hold (non-negative demands, prizes, times and limits, windows and latest starts in order, initial loads within capacity, matching dimensions, existing referenced locations, depots, groups and profiles, consistent group membership, square matrices of matching size with zero diagonal), and the constructed objects then return every attribute exactly as given (matrices in any memory layout or number type, too), with documented defaults. Replacing some attributes changes those and nothing else and leaves the original untouched, and constructed data cannot be changed afterwards.",
["inputs"], "all attribute combinations",
"Restrictions interact; tests check single invalid values.",
["pyvrp/cpp/ProblemData.cpp", "pyvrp/cpp/Client.cpp", "pyvrp/cpp/VehicleType.cpp", "pyvrp/cpp/Shipment.cpp", "pyvrp/cpp/Depot.cpp", "pyvrp/cpp/bindings.cpp"],
[("constructors", "Client, Depot, Shipment, VehicleType, ClientGroup, ProblemData"), ("conversion of given values", "type casters in pyvrp/cpp/bindings.h"), ("replace", "VehicleType::replace, ProblemData::replace")],
"constructors, attributes and replace()")

prop("C18", "Pickling, copying and comparing preserve everything observable",
"Every instance, its components, every route, solution and other value object is, after pickling and unpickling or copying, equal to the original and indistinguishable from it through any accessor. Equality is an equivalence that distinguishes objects differing in any attribute (for routes and solutions: in visits, order, vehicle assignment), solutions are equal regardless of route order, and equal objects have equal hashes.",
["inputs", "histories"], "all values",
"A dropped or swapped field only shows for values with that field at a non-default setting.",
["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/Solution.cpp", "pyvrp/cpp/Route.cpp"],
[("state", "__getstate__/__setstate__ in bindings.cpp"), ("equality and hashing", "operator==, std::hash<Solution>")],
"pickle, copy, ==, hash()")

prop("C19", "Benchmark files are read and solutions written as specified",
"For every instance file in the supported format (any combination of its sections and fields, integral or not, under each rounding convention), the resulting problem data equals the instance the file describes: locations, demands and loads per dimension, windows, service and release times, vehicles with their capacities, costs, limits, reloads and depots, groups, shipments, prizes, backhauls and rounded travel matrices. A solution file written by the command line tool lists exactly its routes' visits, and reading it back gives an equal solution; malformed files are rejected.",
["inputs"], "all section combinations and field values",
"The format has many optional sections that interact.",
["pyvrp/read.py", "pyvrp/cli.py"],
[("parsing", "read, _InstanceParser, _ProblemDataBuilder"), ("solutions", "read_solution, cli.write_solution")],
"read(), read_solution(), cli.write_solution()")

prop("C20", "Fleet minimisation returns a sufficient, smaller-or-equal fleet",
"For every instance with a single vehicle type and only required visits, fleet minimisation returns a vehicle type that differs from the original in the number of available vehicles only; that number is at least one, never exceeds the original, is sufficient (a feasible solution with that many vehicles exists) whenever the original fleet is, and is never below what capacity alone requires; on very small instances with at most one kind of restriction it is the smallest sufficient number. If no feasible solution is found at all, the original fleet is returned. Instances with several vehicle types or optional clients are rejected.",
["inputs"], "all small instances",
"Sufficiency requires comparing to brute-force feasibility.",
["pyvrp/minimise_fleet.py"],
[("bounds and loop", "minimise_fleet")],
"minimise_fleet()")

prop("C21", "Random numbers and random solutions are valid and reproducible",
"The generator is fully determined by its seed or saved state: equal states give equal future numbers (those of the documented xorshift generator), integers drawn lie in the requested range and reals in [0, 1], and each range value is reachable. A randomly generated solution is always legal and complete, for every instance and every generator state, depends on nothing but these, and every admissible selection of optional visits and group members, visit order and vehicle type can occur.",
["inputs", "histories"], "all seeds, states and instances",
"Range and state errors show only for particular seeds or histories.",
["pyvrp/cpp/RandomNumberGenerator.cpp", "pyvrp/cpp/Solution.cpp"],
[("generator", "RandomNumberGenerator"), ("random solutions", "Solution::Solution(data, rng)")],
"RandomNumberGenerator, Solution.make_random()")

prop("C22", "Supporting containers behave like their mathematical counterparts",
"Under every sequence of operations, a bit set behaves like a fixed-length set of integers (set, reset, any, all, none, count, or, and, xor, complement, equality, rejected out-of-range access), a ring buffer like the list of its most recent values up to its capacity, in which peeking shows the oldest value that the next append overwrites and skipping moves past it. A piecewise linear function is accepted exactly if its breakpoints strictly increase and match its segments, evaluates to its defining segments at every point (the right-hand one at a breakpoint, the outermost ones beyond them), and reports monotonicity truthfully. Boundaries between storage blocks and segments, and empty or full states are no exception.",
["histories", "inputs"], "all operation sequences and arguments",
"Boundary conditions (block sizes, wraparound, breakpoints) need particular sequences.",
["pyvrp/cpp/DynamicBitset.cpp", "pyvrp/RingBuffer.py", "pyvrp/cpp/PiecewiseLinearFunction.h"],
[("bit set", "DynamicBitset"), ("ring buffer", "RingBuffer"), ("function", "PiecewiseLinearFunction")],
"DynamicBitset, RingBuffer, PiecewiseLinearFunction")

prop("C23", "Load and duration segments compose associatively and exactly",
"Any way of splitting a trip into parts and merging the parts' load or duration segments, in any association, gives the same total load, excess load, duration, time warp, earliest and latest start and slack, which equal those of executing the trip stop by stop. Finalising a trip and continuing with the next equals executing both trips in sequence, from the front as well as from the back.",
["inputs"], "all stop sequences, splits and merge orders",
"Local search relies on arbitrary merge orders; tests check few merges.",
["pyvrp/cpp/DurationSegment.h", "pyvrp/cpp/LoadSegment.h"],
[("merge", "DurationSegment::merge, LoadSegment::merge"), ("trips", "finaliseBack, finaliseFront, finalise")],
"DurationSegment, LoadSegment")

prop("C24", "Run statistics and results report and round-trip what happened",
"For every run history, collected statistics contain one entry per iteration with the true current, candidate and best costs and feasibility, non-negative runtimes, and survive being written to and read from file unchanged; they are equal exactly when their contents are. The result summarises the best solution truthfully: its cost is the best solution's cost if feasible and infinite otherwise, and its feasibility, iteration count and runtime are those of the run. Printed progress shows the true values at the configured interval, marks every new best feasible solution, and prints nothing when not asked to.",
["histories"], "all run histories",
"Round trips and summaries depend on the exact values recorded.",
["pyvrp/Statistics.py", "pyvrp/Result.py", "pyvrp/ProgressPrinter.py"],
[("statistics", "Statistics.collect, to_csv, from_csv"), ("result", "Result.cost, is_feasible, summary")],
"Statistics, Result")

prop("C25", "Configuration and command line mean what they say",
"For every configuration file, the solver parameters are exactly those stated in it and the defaults for everything else; unknown parameters and values out of range are rejected, and parameter sets are equal exactly when all their values are. For every parameter set, seed and (optional) initial solution, solving runs the search that those parameters describe: their neighbourhood, operators (those supporting the instance), perturbation, penalties (starting half way between their bounds), and iterated local search settings, starting from the given solution or else from an exhaustively improved random one. For every command line, each listed instance is read with the given rounding, solved with the given seed, configuration and stopping criteria (all those given apply, scaled by the number of clients when asked), and the printed table and the solution and statistics files written (only when asked for, one per instance) report exactly the results of that, whatever the number of instances and processes. Unusable command lines are rejected and write nothing.",
["inputs"], "all configuration files, parameter sets and command lines",
"Combinations of options, sections and instances; the tests sample few.",
["pyvrp/solve.py", "pyvrp/cli.py", "pyvrp/PenaltyManager.py", "pyvrp/IteratedLocalSearch.py"],
[("parameters", "SolveParams.from_file, solve, PenaltyParams.midpoint_penalties"), ("command line", "main, benchmark, _solve, write_solution")],
"solve(), command line")

prop("C26", "Objects stay valid for as long as they are held",
"Whatever a user obtains from the library - an instance, its parts and matrices, a route and its schedule, a solution and its routes, a neighbourhood, an operator, a local search, search routes, nodes and solutions, statistics, parameters, and iterators over any of these - keeps its value and keeps working for as long as the user holds it, no matter which of the objects it was obtained or constructed from have been released in the meantime, and in which combination. In particular, no sequence of accesses and releases makes the library use released memory.",
["histories"], "all sequences of accesses and releases",
"Use of released memory mostly goes unnoticed unless memory is reused at just the wrong moment, and depends on which objects happen to be held.",
["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/search/bindings.cpp", "pyvrp/cpp/bindings.h"],
[("ownership", "py::keep_alive and py::return_value_policy of all bindings"), ("matrix views", "type_caster<Matrix>::cast")],
"all objects of the Python API")

prop("C27", "Plots show what instances, solutions and results contain",
"For every instance, solution, route and run result, the plotting functions draw exactly what these contain, on the given axes or else on new ones: locations of all depots, clients, pickups and deliveries; time windows and demands of all clients, sorted, with the average fleet capacity; each trip of a solution through its visits in order, from and to the depots where it starts and ends, and on request the locations of all unplanned visits; a route's schedule over the distance travelled (earliest times, slack, driving and service time, time windows, time warp) and the load actually on board at each point, emptied and refilled at reloads; and the costs and runtimes of each iteration, with their trend. Nothing that is plotted is changed by it.",
["inputs"], "all instances, solutions, routes and histories up to the bounds",
"Image comparisons only cover a handful of single-trip examples, within a tolerance.",
["pyvrp/plotting"],
[("load on board", "plot_route_schedule"), ("trips", "plot_solution"), ("iterations", "plot_objectives, plot_runtimes")],
"plotting functions")

prop("C28", "Insertions take the cheapest place considered, or none",
"For every state of the search solution, unplanned client or shipment, neighbourhood, order of vehicle types and penalty weights, inserting it into the search solution puts it where it increases the penalised cost least among the places considered: directly after any planned neighbour (for a shipment: the pickup directly before or after any planned neighbour, and the delivery anywhere later in that trip) or, when that is cheaper still, the first unused vehicle in the given order of types. An optional visit is inserted exactly when that, counting its prize, lowers the penalised cost, and a required one always. All other activities stay where they are, a shipment's delivery follows its pickup in the same trip, and nothing changes when nothing is inserted.",
["inputs"], "all search states, neighbourhoods and penalty weights",
"A wrongly valued insertion still gives a legal solution, so that only comparing to all alternatives reveals it.",
["pyvrp/cpp/search/Solution.cpp"],
[("clients", "Solution::insert(client), insertCost"), ("shipments", "Solution::insert(pickup, delivery), IncrementalSegmentBetween")],
"search.Solution.insert()")

prop("C29", "The search space tracks promising visits and orders faithfully",
"For every history of marking, unmarking, shuffling and setting neighbourhoods, a search space reports as promising exactly those clients and shipments marked since they were last unmarked, where marking a planned node also marks the visits directly before and after it (never a depot, never anything else). Its visit order always contains every client and shipment once, its vehicle type order every type once with the position of its first vehicle, both change only by shuffling and then depend on nothing but the generator, and all orders can occur. Neighbourhoods are those that were last set; ones of the wrong size, for anything but clients and pickups, or with a visit that neighbours itself are rejected and leave everything as it was.",
["histories"], "all histories of operations",
"Collisions between marks and stale orders depend on the sizes of the instance and on the sequence of operations.",
["pyvrp/cpp/search/SearchSpace.cpp", "pyvrp/cpp/search/SearchSpace.h", "pyvrp/cpp/DynamicBitset.h"],
[("marks", "SearchSpace::markPromising, isPromising, markAllPromising, unmarkAllPromising"), ("orders", "SearchSpace::shuffle, activityOrder, vehTypeOrder"), ("neighbourhoods", "SearchSpace::setNeighbours")],
"search.SearchSpace")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
