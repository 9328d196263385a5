HEADER = """
# Design

PyVRP is a C++ core (problem data, routes, solutions, segments, local search
moves) under a Python shell (iterated local search, penalty management, stopping
criteria, model builder, reader, fleet minimisation, statistics). Almost all of
it is deterministic code over data whose *space of inputs and histories* is what
tests cannot cover. The family of technique is therefore applied as
**bounded-exhaustive, stateless model checking of the real code**:

- a *state space* is stated per property: instances (a lattice of feature
  interactions), solutions/search states of an instance (all assignments,
  orders, reload placements), operation sequences on an object (all up to a
  depth), environment histories (all candidate sequences, all clock readings),
  thread schedules (all up to a preemption bound);
- the *whole* space is executed on the real, freshly compiled code (never
  sampled; `VERIF_SEED` changes nothing but shard order), and every state,
  transition and result is compared to an *independent executable reference
  model*: `mc/model.py` executes routes stop by stop from every start time, and
  the modules in `mc/props` hold small models of the other parts (acceptance
  rule, penalty update, model builder, file format, ...);
- the model is bound to the implementation because every explored trace is
  itself replayed on the implementation: there is no model-only state. The
  evidence file reports states, transitions and traces compared.

The reference model shares no code with PyVRP: no segments, no concatenation,
no caching, no incremental evaluation. It brute-forces start times where the
code uses closed forms, and all solutions where the code uses search.

## Machinery

- `run.py ID [--tier quick|thorough]`: builds `/repo`'s working tree out of tree
  (`mc/build.py`: compiles the C++ sources with -O2 and overlays the Python
  files into `.build/`; reuse is decided by a content hash of all sources),
  then explores the property's shards in parallel worker processes
  (`mc/core.py`), writes `evidence/ID.json`, and prints
  `VIOLATION property=ID replay=PATH` for the first violations; replay files
  hold the complete case (instance, route, history) and the message.
- A worker that crashes, is killed, or exceeds its time limit on a shard is a
  violation of the property (the code under test crashed or hung), with the
  shard as its replay. If the tree does not build or import, every check says
  so as a violation.
- `mc/families.py`: instances as a base plus features. Features are grouped in
  slots (capacity, dimensions, initial load, client windows, service, release,
  depot windows, depot service, vehicle windows, latest start, shift and
  overtime, maximum distance, unit costs, profiles, start/end depots, reloads,
  fixed cost, prizes, groups, shipment windows, geography) and `subsets(t)`
  enumerates every combination of at most `t` slots in every variant: all
  t-way feature interactions.
- `mc/moves.py`: all local search operators with all their node pairs as a
  transition system over search states.
- Threads (C13): a controlled scheduler (`sys.settrace` line events as
  scheduling points, one runnable thread at a time) enumerates all schedules up
  to a preemption bound.
- No hooks were needed in `/repo`; the only commits there are `fix:` commits.

What a bounded check says: the property holds on every element of the stated
space. What lies beyond (more clients, deeper histories) is not claimed.
"""

NOTES = {
    "C01": dict(
        oracle="Step-by-step execution of the route in `mc/model.py`, minimised by brute force over every integer start time.",
        why="Route statistics are computed by concatenating segments with closed forms whose errors appear only when several restrictions interact (release times with shifts with reloads).",
        cost="quick 15 s on an idle machine."),
    "C02": dict(
        oracle="The same execution; slack is found by trying later starts.",
        why="Start time, slack and schedule are derived by separate code from the same segments; agreement has to hold for every interaction of windows.",
        cost="quick 15 s on an idle machine."),
    "C03": dict(
        oracle="Legality predicate and totals in `mc/model.py`, on plain lists.",
        why="Acceptance is a conjunction of many conditions on arbitrary combinations of routes.",
        cost="quick 7 s on an idle machine."),
    "C04": dict(
        oracle="The documented objective over the executed routes, in integers and exact fractions.",
        why="The objective is evaluated in templates on three kinds of objects; errors need specific combinations of costs and violations.",
        cost="quick 14 s on an idle machine."),
    "C05": dict(
        oracle="Cost of the solution before and after actually applying the move, by `mc/model.py`; legality and completeness of the result.",
        why="Delta evaluation is a second, incremental implementation of the objective, with shortcuts (early exits, caches) that are right only if sound in every state.",
        cost="quick 170 s on an idle machine."),
    "C06": dict(
        oracle="A freshly built search route, and the reference model.",
        why="A stateful, cached structure: errors need particular sequences of edits.",
        cost="quick 110 s on an idle machine."),
    "C07": dict(
        oracle="Reference cost/legality; local optimality by evaluating all configured moves on the result.",
        why="A claim over all starts, orders and penalties; missed moves show as non-optimal results only in specific states.",
        cost="quick 70 s on an idle machine."),
    "C08": dict(
        oracle="A fresh object brought to the same shuffle (differential, two executions of the same real code).",
        why="History dependence needs particular call sequences.",
        cost="quick 110 s on an idle machine."),
    "C09": dict(
        oracle="Legality, completeness and count of changed visits on plain lists.",
        why="Depends on the visit order drawn; every order is enumerated by finding a generator seed that yields it.",
        cost="quick 130 s on an idle machine."),
    "C10": dict(
        oracle="An independent executable model of late acceptance hill-climbing with restarts (a list, not a ring buffer).",
        why="The acceptance decision depends on the whole candidate history.",
        cost="quick 130 s on an idle machine."),
    "C11": dict(
        oracle="Executable models of the criteria under a controlled clock.",
        why="Off-by-one and shared-state errors need particular call histories.",
        cost="quick 6 s."),
    "C12": dict(
        oracle="Executable model of the update rule in exact fractions.",
        why="Updates depend on windows of registrations per weight, and warnings on earlier updates.",
        cost="quick 45 s on an idle machine."),
    "C13": dict(
        oracle="The first run's complete trajectory.",
        why="Hidden global state and races show only under particular histories or schedules.",
        cost="quick 60 s on an idle machine."),
    "C14": dict(
        oracle="Reference legality, feasibility and objective; optimum over all enumerated solutions.",
        why="End-to-end claim for every instance; no test compares to a true optimum.",
        cost="quick 45 s on an idle machine."),
    "C15": dict(
        oracle="Direct computation of the documented proximity for every pair, with ties.",
        why="Proximity mixes profiles, vehicle types, windows and groups.",
        cost="quick 20 s on an idle machine."),
    "C16": dict(
        oracle="A reference builder on plain lists.",
        why="Index bookkeeping depends on the order of calls (adding depots after clients, profiles after edges).",
        cost="quick 10 s on an idle machine."),
    "C17": dict(
        oracle="Reference validity rules from the documentation.",
        why="Acceptance has to be exact for every combination of arguments, through the constructor and replace().",
        cost="quick 2 s."),
    "C18": dict(
        oracle="Attribute-by-attribute comparison by introspection, so that new accessors are covered too.",
        why="A forgotten field in a pickle, equality or hash shows only for objects in which that field matters.",
        cost="quick 50 s on an idle machine."),
    "C19": dict(
        oracle="An independent constructor of the instance each generated file describes.",
        why="Sections interact; each combination takes a different path through the reader.",
        cost="quick 45 s on an idle machine."),
    "C20": dict(
        oracle="Smallest sufficient fleet by enumerating all solutions of every smaller fleet.",
        why="Depends on where the stopping criterion fires; every position is enumerated.",
        cost="quick 9 s on an idle machine."),
    "C21": dict(
        oracle="Reference xorshift128 generator; set of all admissible random solutions.",
        why="Which random solutions can occur depends on draws; draw outcomes are enumerated by inverting the generator.",
        cost="quick 50 s on an idle machine."),
    "C22": dict(
        oracle="Python sets, deques and rational arithmetic.",
        why="Boundary states (block boundaries, wrap-around) need particular operation sequences.",
        cost="quick 4 s."),
    "C23": dict(
        oracle="Brute-force execution of the stop sequence from every start.",
        why="Associativity is a claim over all splits; all binary trees are enumerated.",
        cost="quick 16 s."),
    "C24": dict(
        oracle="A reference record of the history; a controlled clock.",
        why="Values depend on the history of iterations.",
        cost="quick 12 s on an idle machine."),
    "C25": dict(
        oracle="The parameters stated; the search put together by hand from "
        "its components; solving each instance directly.",
        why="Options and parameters interact, and most of them only show in "
        "the trace of a search, which the check compares event by event.",
        cost="quick 65 s on an idle machine."),
    "C26": dict(
        oracle="The value of the same path of accessors when nothing is "
        "released.",
        why="Tests hold on to their instance and solution objects, so a "
        "missing keep-alive shows nowhere; here every release pattern is "
        "tried, and the allocator overwrites what is released.",
        cost="quick 20 s."),
    "C27": dict(
        oracle="The drawing computed by the execution model of C01-C03.",
        why="The drawn series depend on the structure of routes (trips, "
        "reloads, depots, time warp), which image comparisons of a few "
        "single-trip examples do not vary.",
        cost="quick about 60 s on an idle machine."),
    "C28": dict(
        oracle="The cheapest of all places considered, by executing the "
        "changed route with the model of C01-C04 for each.",
        why="A wrong insertion is repaired or hidden by later moves, so that "
        "no test of the whole search can see it, and tests of insertion "
        "itself cover single-profile, single-trip routes.",
        cost="quick about 90 s on an idle machine."),
    "C29": dict(
        oracle="A set of marked visits and the last orders seen.",
        why="All mark states and operations are covered, rather than a few "
        "marks on one instance.",
        cost="quick about 10 s."),
}

FALSE_ALARMS = """
## False alarms corrected on the way

These were errors in the properties or the reference model, and were corrected
there (none is listed as a finding):

- the end depot's window, but not the vehicle's latest end, bounds the schedule
  entry of the end depot (the vehicle's window enters through the route's start
  and time warp);
- penalties are truncated to integers per term, not in total;
- strict local optimality (C07) with respect to pairwise moves cannot be claimed
  with optional visits, groups or reloads, where those moves are only evaluated
  again when the routes involved have changed (moves of a single visit and into
  unused vehicles always are);
- the perturbation changes exactly min(strength, visits) visits (not 'at most');
- solutions with two visited members of a group are rejected by `Solution`
  itself, not only reported;
- among ties any order of neighbours is right (C15);
- `VehicleType.replace` keeps a given latest start (C17).
"""

SEEDED = """
Written from the properties and the code; each builds, passes the 967 stable
tests, and has a demonstration (`demo.sh`). 'caught by' names the quick checks
that report it.
"""
CAUGHT = {}
TAIL = """
## Limits

- Compiled code is atomic for the scheduler of C13 (the GIL is released in local
  search calls, but the C++ side shares no state between objects after the fix
  to the default perturbation manager).
- Plots are compared by the data series on their axes, not by pixels; colours
  and styles are mostly outside C27.
- The show_versions helper is outside the properties.
"""
