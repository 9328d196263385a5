"""C10: iterated local search driven through every candidate history."""

import itertools

from mc import families as F
from mc import model as M

ID = "C10"
RULE = (
    "the real IteratedLocalSearch.run driven by a scripted search method "
    "through every sequence of up to 5 (thorough: 6) candidates out of 6 real "
    "solutions (three feasible cost levels, a cost tie, excess load, "
    "incomplete), for every initial solution, history length 1-3, restart "
    "limit 0-3 and never, 4 behaviours of the exhaustive search, and constant "
    "or changing penalty weights; every call, event, statistic and the result "
    "is compared to an independent executable model of late acceptance with "
    "restarts"
)
ASSUMPTIONS = [
    "the search method honours its contract that the exhaustive search does "
    "not return a costlier feasible solution (decided by C07)",
]
TECHNIQUE = (
    "stateless model checking of the real search loop: exhaustive enumeration "
    "of all environment histories (candidates returned by the search method) "
    "up to a depth, compared to an executable reference model"
)
INT_MAX = 2**63 - 1
LIMITS = (0, 1, 2, 3, 10**6)
WEIGHTS = (0, 1, 0, 0, 1, 1, 0)  # which weights apply, when they change


def shards(tier):
    depth = 5 if tier == "quick" else 6
    out = []
    for init, first, hist in itertools.product(range(6), range(6), (1, 2, 3)):
        out.append(dict(init=init, first=first, hist=hist, depth=depth))
    out.append(dict(params=True))
    return out


def pool(pv):
    sp = F.base(nc=3, ns=0, nv=1)
    sp["vtypes"][0].update(num=3, cap=[4])
    for c, d in zip(sp["clients"], (2, 2, 2)):
        c.update(d=[d], p=[0])
    data = M.build(sp)
    evs = [pv.CostEvaluator([1], 1, 1), pv.CostEvaluator([100], 1, 1)]
    full, cheap, over, miss = {}, None, None, None
    for routes in F.solutions(sp):
        sol = F.real_solution(pv, data, routes)
        if sol.is_feasible():
            full.setdefault(evs[0].cost(sol), []).append(sol)
        elif sol.is_complete():
            pen = evs[0].penalised_cost(sol)
            if over is None or pen < over[0]:
                over = pen, sol
        elif len(routes) == 2 and miss is None:
            miss = sol
    costs = sorted(full)
    tie = next(c for c in costs[1:-1] if len(full[c]) > 1)
    # The solution with excess load ties, too, but under these weights only.
    free = pv.CostEvaluator([0], 0, 0).penalised_cost(over[1])
    evs[0] = pv.CostEvaluator([(tie - free) / over[1].excess_load()[0]], 1, 1)
    sols = [
        full[costs[0]][0], full[tie][0], full[tie][1], full[costs[-1]][0],
        over[1], miss,
    ]
    return data, sols, evs


def model(init, script, ends, limit, hist, exhaust, changing, pen, feas):
    """Reference: returns the expected trace. Solutions are pool indices."""
    trace = [("start",)]
    slots, at = [None] * hist, 0
    best = curr = init
    stale = 0

    def cost(idx):
        return pen[0][idx] if feas[idx] else INT_MAX

    trace.append(("stop", cost(best)))
    for num in range(ends):
        if stale == limit:
            slots, at, stale, curr = [None] * hist, 0, 0, best
            trace.append(("restart", best))
        w = pen[WEIGHTS[num] if changing else 0]
        trace.append(("search", curr, WEIGHTS[num] if changing else 0, False))
        cand = script[num]
        trace.append(("register", cand))
        if cost(cand) < cost(best):
            best, stale = cand, 0
            if exhaust is not None:
                trace.append(("search", cand, WEIGHTS[num] if changing else 0, True))
                cand = exhaust[cand]
                if feas[cand]:
                    best = cand
            trace.append(("best", best))
        else:
            stale += 1
        old = slots[at]
        late = w[init if old is None else old]
        if w[cand] < late or w[cand] < w[curr]:
            curr = cand
        if old is None or w[curr] < late:
            slots[at] = curr
        at = (at + 1) % hist
        trace.append(("iter", curr, cand, best, WEIGHTS[num] if changing else 0))
        trace.append(("stop", cost(best)))
    trace.append(("end", best))
    return trace, best


def views(trace):
    """The trace as seen by each of its observers: how calls to different
    observers interleave is not part of the property."""
    out = [], [], [], []
    for event in trace:
        where = ("search", "register", "stop").index(event[0]) if event[
            0
        ] in ("search", "register", "stop") else 3
        out[where].append(event)
    return out


def run(shard, ctx):
    import pyvrp as pv
    from pyvrp.IteratedLocalSearch import (
        IteratedLocalSearch,
        IteratedLocalSearchCallbacks,
        IteratedLocalSearchParams,
    )

    if "params" in shard:
        return check_params(ctx, IteratedLocalSearchParams)

    data, sols, evs = pool(pv)
    pen = [[ev.penalised_cost(s) for s in sols] for ev in evs]
    feas = [s.is_feasible() for s in sols]
    assert feas == [True] * 4 + [False] * 2
    assert pen[0][0] < pen[0][1] == pen[0][2] < pen[0][3]
    assert pen[0][4] == pen[0][1] < pen[0][3] and pen[1][4] > pen[1][3]

    def idx_of(sol):
        for idx, other in enumerate(sols):
            if sol is other:
                return idx
        return sols.index(sol)

    def ev_of(ev):
        return next((k for k, e in enumerate(evs) if e is ev), -1)

    class Env(IteratedLocalSearchCallbacks):
        """Search method, penalty manager, stop and observer in one."""

        def setup(self, script, ends, exhaust, changing):
            self.trace, self.script, self.ends = [], script, ends
            self.exhaust, self.changing = exhaust, changing
            self.num = self.stops = 0

        def cost_evaluator(self):
            return evs[WEIGHTS[self.num] if self.changing else 0]

        def register(self, sol):
            self.trace.append(("register", idx_of(sol)))

        def search(self, sol, ev, exhaustive=False):
            idx = idx_of(sol)
            self.trace.append(("search", idx, ev_of(ev), exhaustive))
            if exhaustive:
                return sols[self.exhaust[idx]]
            self.num += 1
            return sols[self.script[self.num - 1]]

        def stop(self, cost):
            self.trace.append(("stop", cost))
            self.stops += 1
            return self.stops > self.ends

        def on_start(self, ils):
            self.trace.append(("start",))

        def on_end(self, result):
            self.trace.append(("end", idx_of(result.best)))

        def on_iteration(self, current, candidate, best, cost_evaluator):
            self.trace.append(
                ("iter", idx_of(current), idx_of(candidate), idx_of(best),
                 ev_of(cost_evaluator))
            )

        def on_restart(self, best):
            self.trace.append(("restart", idx_of(best)))

        def on_best(self, best):
            self.trace.append(("best", idx_of(best)))

    env, twin = Env(), Env()
    exhausts = [None, [0, 1, 2, 3, 4, 5], [0, 0, 0, 0, 4, 4], [4] * 6]
    init, hist = shard["init"], shard["hist"]
    for depth in range(1, shard["depth"] + 1):
        for rest in itertools.product(range(6), repeat=depth - 1):
            script = (shard["first"], *rest)
            ctx.states += 1
            for limit, num, changing in itertools.product(
                LIMITS, range(4), (False, True)
            ):
                if limit != 10**6 and limit >= depth:
                    continue
                exhaust = exhausts[num]
                args = (init, script, depth, limit, hist, exhaust, changing)
                want, best = model(*args, pen, feas)
                params = IteratedLocalSearchParams(
                    limit, hist, exhaust is not None, env
                )
                env.setup(script, depth, exhaust, changing)
                algo = IteratedLocalSearch(
                    data, env, env.search, sols[init], params
                )
                res = algo.run(env.stop)
                ctx.traces += 1
                ctx.transitions += len(want)
                if views(env.trace) != views(want):
                    ctx.fail(args, f"trace {env.trace}, want {want}")
                    continue
                ctx.check(
                    idx_of(res.best) == best
                    and res.num_iterations == depth
                    and res.runtime >= 0
                    and res.is_feasible() == feas[best],
                    args, "wrong result",
                )
                iters = [t for t in want if t[0] == "iter"]
                got = [
                    (d.current_cost, d.current_feas, d.candidate_cost,
                     d.candidate_feas, d.best_cost, d.best_feas)
                    for d in res.stats
                ]
                ok = [
                    tuple(x for i in t[1:4] for x in (pen[t[4]][i], feas[i]))
                    for t in iters
                ]
                ctx.equal(got, ok, args, "statistics")
                ctx.check(
                    res.stats.num_iterations == depth
                    and len(res.stats.runtimes) == depth
                    and min(res.stats.runtimes) >= 0,
                    args, "statistics lengths",
                )
                if depth <= 3:  # display, no statistics, no observer
                    for stats, shown in ((False, False), (True, True),
                                         (False, True)):
                        twin.setup(script, depth, exhaust, changing)
                        other = IteratedLocalSearch(
                            data, twin, twin.search, sols[init],
                            IteratedLocalSearchParams(
                                limit, hist, exhaust is not None
                            ),
                        ).run(twin.stop, stats, shown, 0.0)
                        ctx.traces += 1
                        ctx.check(
                            other.best == res.best
                            and other.num_iterations == depth
                            and other.stats.data
                            == (res.stats.data if stats else [])
                            and views(twin.trace)[:3] == views(want)[:3],
                            args, f"differs with stats={stats} show={shown}",
                        )
    if shard["first"] == 0:  # stopping before the first iteration
        for limit in LIMITS:
            env.setup((), 0, None, False)
            res = IteratedLocalSearch(
                data, env, env.search, sols[init],
                IteratedLocalSearchParams(limit, hist, True, env),
            ).run(env.stop)
            ctx.check(
                res.best == sols[init] and res.num_iterations == 0
                and [t[0] for t in env.trace] == ["start", "stop", "end"],
                limit, f"no iterations allowed, but {env.trace}",
            )
    ctx.sample(dict(init=init, hist=hist, script=script, trace=want))


def check_params(ctx, cls):
    for limit, hist in itertools.product(range(-2, 4), repeat=2):
        valid = limit >= 0 and hist > 0
        ctx.states += 1
        ctx.traces += 1
        try:
            params = cls(limit, hist)
        except ValueError:
            ctx.check(not valid, (limit, hist), "valid parameters rejected")
        else:
            ctx.check(
                valid
                and params.num_iters_no_improvement == limit
                and params.history_length == hist,
                (limit, hist), "invalid parameters accepted",
            )
