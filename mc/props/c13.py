"""C13: solving is reproducible from the seed."""

import gc
import hashlib
import itertools
import json
import os
import pathlib
import subprocess
import sys
import threading

from mc import families as F
from mc import model as M

ID = "C13"
RULE = (
    "the complete trajectory (every current, candidate and best solution, "
    "their costs and the penalties in every iteration) of solving instances "
    "with <= 2 (thorough: 3) features is compared to that of a first run: "
    "after every sequence of <= 2 (thorough: 3) other activities in the "
    "process (other solves, aborted solves, random solutions, fleet "
    "minimisation, pickling, garbage, display, statistics), under every of 8 "
    "configurations of display, statistics and progress clock, for every "
    "smaller iteration limit, from equal copies of the instance and initial "
    "solution, in 4 fresh interpreters with different hash randomisation; "
    "and under every schedule of two concurrent solves (and hand-built "
    "searches) with <= 1 (thorough: 2) preemptions, where every line of "
    "Python code in the package is a scheduling point"
)
ASSUMPTIONS = [
    "calls into compiled code are atomic scheduling steps",
    "iteration limits are used as stopping criterion",
]
TECHNIQUE = (
    "stateless model checking of the real solver: all activity histories up "
    "to a depth, and all thread schedules up to a preemption bound under a "
    "controlled scheduler, comparing complete trajectories"
)
HANG = 300


def shards(tier):
    quick = tier == "quick"
    order = 2 if quick else 3
    out = []
    for kw in (dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2)):
        for chunk in F.chunks(list(F.subsets(order)), 48):
            out.append(dict(kind="configs", kw=kw, feats=chunk))
    few = list(F.subsets(1))
    for chunk in F.chunks(few, 24):
        out.append(dict(kind="hashes", kw=dict(nc=3, ns=1, nv=2),
                        feats=chunk))
    depth = 2 if quick else 3
    for num in range(len(INSTANCES)):
        for first in ACTIVITIES:
            out.append(dict(kind="histories", num=num, first=first,
                            depth=depth))
    parts = 8 if quick else 64
    for target in ("solve", "model", "search", "fleet"):
        for num in range(len(INSTANCES)):
            for part in range(parts):
                out.append(dict(kind="schedules", target=target, num=num,
                                bound=1 if quick else 2, part=part,
                                parts=parts))
    return out


def BIG_FIRST(shard):
    return 1 if shard["kind"] in ("schedules", "histories") else 0


INSTANCES = [
    (dict(prize="opt", vtw="short"), dict(nc=3, ns=0, nv=2)),
    (dict(reload="many", cap="tight"), dict(nc=3, ns=0, nv=1)),
    (dict(group="req", unit="dur"), dict(nc=3, ns=1, nv=2)),
]


def run(shard, ctx):
    globals()[shard["kind"]](ctx, shard)


# -- trajectories ---------------------------------------------------------------


def make(feats, kw):
    sp = F.make({k: v for k, v in feats.items() if known(k, v)}, **kw)
    return sp


def known(slot, name):
    try:
        F.make({slot: name}, nc=3, ns=1, nv=2)
        return True
    except Exception:
        raise ValueError(f"unknown feature {slot}={name}")


def trajectory(data, seed, iters, init=None, via="solve", hook=None, **kw):
    """Everything that happens in a run, except for its timing."""
    import pyvrp as pv
    from pyvrp.stop import MaxIterations

    out = []

    class Watch(pv.IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            out.append(("start", F.as_lists(ils.initial_solution)))

        def on_iteration(self, current, candidate, best, ev):
            out.append((
                F.as_lists(current), F.as_lists(candidate), F.as_lists(best),
                ev.penalised_cost(current), ev.penalised_cost(candidate),
                ev.penalised_cost(best),
                ev.tw_penalty(1), ev.dist_penalty(1, 0),
            ))
            if hook:
                hook(len(out))

        def on_restart(self, best):
            out.append(("restart", F.as_lists(best)))

    params = pv.SolveParams(
        ils=pv.IteratedLocalSearchParams(
            num_iters_no_improvement=3, history_length=2, callbacks=Watch()
        ),
        **kw.pop("params", {}),
    )
    if via == "model":
        model = pv.Model.from_data(data)
        res = model.solve(MaxIterations(iters), seed=seed, params=params,
                          initial_solution=init,
                          **{"display": False, **kw})
    else:
        res = pv.solve(data, MaxIterations(iters), seed=seed, params=params,
                       initial_solution=init, **kw)
    final = (F.as_lists(res.best), res.num_iterations, str(res.cost()),
             res.is_feasible())
    stats = [
        (d.current_cost, d.candidate_cost, d.best_cost, d.current_feas,
         d.candidate_feas, d.best_feas) for d in res.stats.data
    ]
    return out, final, stats


def differ(one, two):
    for num, (a, b) in enumerate(itertools.zip_longest(one[0], two[0])):
        if a != b:
            return f"event {num}: {str(a)[:300]} != {str(b)[:300]}"
    return f"result {str(one[1])[:300]} != {str(two[1])[:300]}"


def compare(ctx, got, want, case, what):
    ctx.traces += 1
    if got[:2] != want[:2]:
        ctx.fail(case(), f"{what}: {differ(got, want)}")


def quiet(func):
    import logging

    log = logging.getLogger("pyvrp")
    log.addHandler(logging.NullHandler())
    log.propagate = False
    return func


# -- configurations -----------------------------------------------------------------


def configs(ctx, shard):
    import copy
    import pickle

    import pyvrp as pv

    quiet(None)
    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        data, twin = M.build(sp), M.build(sp)
        for seed in (1, 4):
            ctx.states += 1

            def case():
                return dict(spec=sp, seed=seed)

            want = trajectory(data, seed, 8, collect_stats=False)
            for display, stats, interval in itertools.product(
                (False, True), (False, True), (0.0, 5.0)
            ):
                ctx.transitions += 1
                got = trajectory(
                    twin if stats else data, seed, 8, display=display,
                    collect_stats=stats,
                    params=dict(display_interval=interval),
                )
                compare(ctx, got, want, case,
                        f"display={display} stats={stats}")
                if len(got[2]) != (8 if stats else 0):
                    ctx.fail(case(), f"{len(got[2])} statistics collected")
            for iters in range(8):
                ctx.transitions += 1
                got = trajectory(data, seed, iters)
                part = [e for e in want[0]]
                if got[0] != part[: len(got[0])]:
                    ctx.fail(case(), f"{iters} iterations: "
                                     f"{differ(got, want)}")
            for display, stats in itertools.product((False, True), repeat=2):
                ctx.transitions += 1
                got = trajectory(twin, seed, 8, via="model", display=display,
                                 collect_stats=stats)
                compare(ctx, got, want, case, "through a model")
            clone = pickle.loads(pickle.dumps(data))
            got = trajectory(clone, seed, 8)
            compare(ctx, got, want, case, "from a pickled instance")
            # Warm starts from equal, but not identical, solutions.
            init = pv.Solution.make_random(
                data, pv.RandomNumberGenerator(seed=5)
            )
            warm = trajectory(data, seed, 6, init=init)
            other = copy.deepcopy(init)
            compare(ctx, trajectory(twin, seed, 6, init=other), warm, case,
                    "warm start")
            if F.as_lists(init) != F.as_lists(other) or init != other:
                ctx.fail(case(), "initial solution was changed")
            if data != twin or data != M.build(sp):
                ctx.fail(case(), "instance was changed")
            ctx.transitions += 4
    ctx.sample(dict(spec=sp, final=want[1]))


# -- histories of other activities ----------------------------------------------------

ACTIVITIES = ["same", "seed", "other", "abort", "random", "fleet", "pickle",
              "garbage", "display", "search", "params", "compare"]


class Abort(Exception):
    pass


def act(name, data, others, junk):
    """Performs some other activity in this process."""
    import pickle

    import pyvrp as pv
    from pyvrp.stop import MaxIterations

    rng = pv.RandomNumberGenerator(seed=11)
    if name == "same":
        trajectory(data, 1, 4)
    elif name == "seed":
        trajectory(data, 9, 5)
    elif name == "other":
        for other in others:
            trajectory(other, 2, 3)
    elif name == "abort":
        def hook(num):
            if num == 3:
                raise Abort

        try:
            trajectory(data, 1, 6, hook=hook)
        except Abort:
            pass
    elif name == "random":
        junk.append([pv.Solution.make_random(data, rng) for _ in range(9)])
    elif name == "fleet":
        for other in (data, *others):
            try:
                pv.minimise_fleet(other, MaxIterations(3), seed=3)
            except ValueError:
                pass
    elif name == "pickle":
        junk.append(pickle.loads(pickle.dumps((data, others))))
    elif name == "garbage":
        junk.append([bytearray(k * 37 % 5000) for k in range(4000)])
        del junk[:-1]
        gc.collect()
    elif name == "display":
        trajectory(data, 1, 3, display=True, collect_stats=True)
    elif name == "search":
        searches(data, 3, 4)
    elif name == "params":
        trajectory(data, 1, 4, params=dict(
            perturbation=pv.search.PerturbationParams(2, 3),
            neighbourhood=pv.search.NeighbourhoodParams(num_neighbours=1),
            penalty=pv.PenaltyParams(solutions_between_updates=2),
        ))
    elif name == "compare":
        sols = [pv.Solution.make_random(data, rng) for _ in range(6)]
        junk.append({hash(s) for s in sols})
        junk.append([a == b for a in sols for b in sols])
        str(sols), str(data)


def searches(data, seed, calls):
    """A hand-built local search, with default arguments."""
    import pyvrp as pv
    from pyvrp import search

    rng = pv.RandomNumberGenerator(seed=seed)
    ls = search.LocalSearch(data, rng, search.compute_neighbours(data))
    for op in search.OPERATORS:
        if op.supports(data):
            ls.add_operator(op(data))
    sol = pv.Solution.make_random(data, rng)
    ev = pv.CostEvaluator([3] * data.num_load_dimensions, 4, 5)
    out = [F.as_lists(sol)]
    for call in range(calls):
        sol = ls(sol, ev, exhaustive=call % 3 == 2)
        out.append(F.as_lists(sol))
    return out, tuple(rng.state()), []


def histories(ctx, shard):
    quiet(None)
    specs = [make(*inst) for inst in INSTANCES]
    datas = [M.build(sp) for sp in specs]
    data = datas[shard["num"]]
    others = [d for d in datas if d is not data]
    want = trajectory(data, 6, 8)
    alone = searches(data, 2, 4)
    junk = []
    for depth in range(shard["depth"]):
        for rest in itertools.product(ACTIVITIES, repeat=depth):
            ctx.states += 1
            names = (shard["first"], *rest)
            for name in names:
                ctx.transitions += 1
                act(name, data, others, junk)

            def case():
                return dict(instance=INSTANCES[shard["num"]], after=names)

            compare(ctx, trajectory(data, 6, 8), want, case, "history")
            compare(ctx, searches(data, 2, 4), alone, case, "history")
    for sp, d in zip(specs, datas):
        if M.build(sp) != d:
            ctx.fail(dict(spec=sp), "instance was changed")
    ctx.sample(dict(instance=INSTANCES[shard["num"]], after=names))


# -- fresh interpreters -----------------------------------------------------------------


def digest(kw, feats):
    out = []
    for f in feats:
        data = M.build(F.make(f, **kw))
        for seed in (1, 2):
            res = trajectory(data, seed, 8)
            out.append(hashlib.sha256(repr(res).encode()).hexdigest())
    return out


def hashes(ctx, shard):
    root = str(pathlib.Path(__file__).resolve().parents[2])
    want = digest(shard["kw"], shard["feats"])
    code = (
        "import json, sys\n"
        f"sys.path[:0] = {[root, *sys.path]!r}\n"
        "from mc.props import c13\n"
        "args = json.loads(sys.argv[1])\n"
        "print(json.dumps(c13.digest(args['kw'], args['feats'])))\n"
    )
    for seed in ("0", "1", "12345", "random"):
        env = {**os.environ, "PYTHONHASHSEED": seed,
               "PYTHONDONTWRITEBYTECODE": "1"}
        proc = subprocess.run(
            [sys.executable, "-c", code, json.dumps(shard)], env=env,
            capture_output=True, text=True,
        )
        if proc.returncode:
            raise RuntimeError(proc.stderr[-2000:])
        got = json.loads(proc.stdout.splitlines()[-1])
        for num, (a, b) in enumerate(zip(got, want)):
            ctx.states += 1
            ctx.transitions += 8
            ctx.traces += 1
            if a != b:
                ctx.fail(
                    dict(feats=shard["feats"][num // 2], seed=num % 2 + 1,
                         hashseed=seed),
                    "another trajectory in another interpreter",
                )


# -- schedules of concurrent runs -----------------------------------------------------


class Scheduler:
    """Runs functions in threads, one at a time. Each line of package code is
    a scheduling point; the running thread is preempted at the given ones."""

    def __init__(self, funcs, first, switches):
        import pyvrp

        self.root = str(pathlib.Path(pyvrp.__file__).parent)
        self.funcs = funcs
        self.switches = set(switches)
        self.points = 0
        self.turn = first
        self.gates = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.results = [None] * len(funcs)

    def point(self, me):
        self.points += 1
        if self.points in self.switches:
            self.leave(me)

    def leave(self, me):
        other = 1 - me
        if self.done[other]:
            return
        self.gates[other].release()
        if not self.done[me]:
            self.gates[me].acquire()

    def body(self, me):
        self.gates[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.root):
                return local
            return None

        sys.settrace(trace)
        try:
            self.results[me] = self.funcs[me]()
        except BaseException as err:
            self.results[me] = ([repr(err)], None, [])
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.leave(me)

    def run(self):
        threads = [
            threading.Thread(target=self.body, args=(k,), daemon=True)
            for k in range(len(self.funcs))
        ]
        for thread in threads:
            thread.start()
        self.gates[self.turn].release()
        for thread in threads:
            thread.join()
        return self.results


def larger(feats):
    import pyvrp as pv

    m = pv.Model()
    depot = m.add_depot(m.add_location(0, 0))
    m.add_vehicle_type(3, capacity=4 if "cap" in feats else 9)
    for num in range(10):
        loc = m.add_location(7 * num % 11, 5 * num * num % 13)
        prize = 4 if "prize" in feats and num % 3 == 0 else 0
        m.add_client(loc, delivery=1, prize=prize, required=not prize,
                     tw_late=25 + num if "unit" in feats else 1000)
    for frm in m.locations:
        for to in m.locations:
            dist = abs(frm.x - to.x) + abs(frm.y - to.y)
            m.add_edge(frm, to, dist, dist)
    return m.data()


def schedules(ctx, shard):
    import pyvrp as pv
    from pyvrp.stop import MaxIterations

    quiet(None)
    feats, kw = INSTANCES[shard["num"]]
    sp = make(feats, kw)
    data = M.build(sp)
    init = pv.Solution.make_random(data, pv.RandomNumberGenerator(seed=5))

    if shard["target"] == "solve":
        funcs = [
            lambda: trajectory(data, 1, 2, init=init),
            lambda: trajectory(data, 2, 3, init=init),
        ]
    elif shard["target"] == "model":
        funcs = [
            lambda: trajectory(data, 1, 2, via="model"),
            lambda: trajectory(data, 2, 2, init=init),
        ]
    elif shard["target"] == "fleet":
        lone = M.build(F.make(dict(cap="tight"), nc=3, ns=0, nv=1))

        def fleet():
            got = pv.minimise_fleet(lone, MaxIterations(3), seed=1)
            return [got.num_available], None, []

        funcs = [fleet, lambda: trajectory(data, 2, 2)]
    else:
        # Large enough for the (default) perturbation strengths to matter.
        data = larger(feats)
        seeds = [(1, 2), (3, 4), (5, 6)][shard["num"]]
        funcs = [
            lambda: searches(data, seeds[0], 5),
            lambda: searches(data, seeds[1], 5),
        ]

    want = [func() for func in funcs]
    probe = Scheduler(funcs, 0, ())
    probe.run()
    points = probe.points
    plans = [()]
    for bound in range(1, shard["bound"] + 1):
        plans += list(itertools.combinations(range(1, points + 1), bound))
    for first in (0, 1):
        for plan in plans[shard["part"] :: shard["parts"]]:
            ctx.states += 1
            ctx.transitions += points
            ctx.note(lambda: dict(shard=shard, first=first, switches=plan))
            got = Scheduler(funcs, first, plan).run()

            def case():
                return dict(instance=INSTANCES[shard["num"]], first=first,
                            target=shard["target"], switches=plan)

            for a, b in zip(got, want):
                compare(ctx, a, b, case, "concurrent runs")
    ctx.count("schedules", 2 * len(plans[shard["part"] :: shard["parts"]]))
    ctx.sample(dict(target=shard["target"], points=points))
