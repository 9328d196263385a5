"""C11: stopping criteria under every history of best costs and clock steps."""

import functools
import itertools
import sys
import time

ID = "C11"
RULE = (
    "each criterion called along every history of (best cost, clock step) up "
    "to depth 6-9 (thorough: 8-11) over 4 cost levels (including infeasible) "
    "and clock steps 0, 0.5, 1, 2, for all small limits; every combination of "
    "up to 3 criteria (and nested ones) along every history of depth 5 "
    "(thorough: 6); answers compared to an executable model; all small "
    "constructor arguments accepted or rejected as documented"
)
ASSUMPTIONS = ["time only advances between calls (controlled clock)"]
TECHNIQUE = (
    "stateless model checking of the real criteria under a controlled clock: "
    "all call histories up to a depth against an executable reference model"
)
INF = 2**63 - 1
COSTS = (1, 2, 3, INF)
STEPS = (0.0, 0.5, 1.0, 2.0)


class Clock:
    """Replaces the monotonic clocks everywhere in pyvrp."""

    def __init__(self):
        self.now = 1000.0
        real = {time.perf_counter, time.monotonic, time.time}
        real_ns = {time.perf_counter_ns, time.monotonic_ns, time.time_ns}
        for mod in [time, *sys.modules.values()]:
            if mod is time or getattr(mod, "__name__", "").startswith("pyvrp"):
                for key, val in list(vars(mod).items()):
                    try:
                        if val in real:
                            setattr(mod, key, lambda: self.now)
                        elif val in real_ns:
                            setattr(mod, key, lambda: int(self.now * 1e9))
                    except TypeError:
                        pass


@functools.cache
def the_clock():
    return Clock()  # one per process, as it replaces functions


def shards(tier):
    more = 0 if tier == "quick" else 2
    out = [dict(kind="args")]
    for first in COSTS:
        out.append(dict(kind="iters", first=first, depth=6 + more))
        out.append(dict(kind="noimp", first=first, depth=8 + more))
    for first in STEPS:
        for limit in (0, 0.25, 0.5, 1, 1.5, 2, 3, 5):
            out.append(dict(kind="time", first=first, limit=limit,
                            depth=7 + more))
    for names in combos():
        out.append(dict(kind="multi", names=names, depth=5 + more // 2))
    return out


def combos():
    basic = [["iters", 0], ["iters", 2], ["iters", 4], ["noimp", 1],
             ["noimp", 2], ["time", 1], ["time", 2.5], ["feas", 0]]
    for num in (1, 2, 3):
        yield from map(list, itertools.combinations(basic, num))
    yield [["iters", 3], ["multi", [["noimp", 2], ["time", 2]]]]
    yield [["multi", [["feas", 0], ["iters", 2]]], ["time", 1]]


class Ref:
    """Executable model of all criteria: a function of the history."""

    @staticmethod
    def answer(kind, arg, costs, times):
        """Answer to the last call, given the calls' costs and times."""
        if kind == "iters":
            return len(costs) > arg
        if kind == "time":
            return times[-1] - times[0] > arg
        if kind == "feas":
            return costs[-1] < INF
        if kind == "noimp":
            # iterations since the last time the best cost improved
            last = max(
                k for k in range(len(costs))
                if all(costs[k] < c for c in costs[:k])
            )
            return len(costs) - 1 - last >= arg
        return any(Ref.answer(k, a, costs, times) for k, a in arg)


def make(kind, arg):
    from pyvrp import stop as S

    if kind == "multi":
        return S.MultipleCriteria([make(*a) for a in arg])
    if kind == "feas":
        return S.FirstFeasible()
    names = dict(iters="MaxIterations", noimp="NoImprovement",
                 time="MaxRuntime")
    return getattr(S, names[kind])(arg)


def drive(ctx, clock, kind, arg, costs, steps, until_stop):
    """Runs one history from a fresh criterion."""
    crit = make(kind, arg)
    times = []
    ctx.traces += 1
    for num, (cost, step) in enumerate(zip(costs, steps)):
        clock.now += step
        times.append(clock.now)
        want = Ref.answer(kind, arg, costs[: num + 1], times)
        ctx.transitions += 1
        got = crit(cost)
        if bool(got) != want:
            ctx.fail(
                dict(kind=kind, arg=arg, costs=costs, steps=steps, call=num),
                f"answered {got}, want {want}",
            )
            return
        if want and until_stop:
            return


def run(shard, ctx):
    import pyvrp.stop  # noqa: F401

    kind = shard["kind"]
    if kind == "args":
        return check_args(ctx)

    clock = the_clock()
    if kind in ("iters", "noimp"):
        depth = shard["depth"]
        for costs in itertools.product(COSTS, repeat=depth - 1):
            costs = (shard["first"], *costs)
            ctx.states += 1
            for arg in range(depth):
                drive(ctx, clock, kind, arg, costs, [0.5] * depth, False)
        ctx.sample(dict(kind=kind, arg=arg, costs=costs))
    elif kind == "time":
        depth = shard["depth"]
        for steps in itertools.product(STEPS, repeat=depth - 1):
            ctx.states += 1
            drive(ctx, clock, kind, shard["limit"], [7] * depth,
                  (shard["first"], *steps), False)
        ctx.sample(dict(kind=kind, limit=shard["limit"], steps=steps))
    else:
        depth = shard["depth"]
        for costs in itertools.product((1, 2, INF), repeat=depth):
            for steps in itertools.product((0.0, 1.0), repeat=depth):
                ctx.states += 1
                drive(ctx, clock, "multi", shard["names"], costs, steps, True)
        ctx.sample(dict(kind=kind, names=shard["names"], costs=costs))


def check_args(ctx):
    from pyvrp import stop as S

    for name in ("MaxIterations", "MaxRuntime", "NoImprovement"):
        for arg in (-5, -1, 0, 1, 5) + (
            (-0.5, 0.5) if name == "MaxRuntime" else ()
        ):
            ctx.states += 1
            ctx.traces += 1
            try:
                getattr(S, name)(arg)
                ctx.check(arg >= 0, (name, arg), "accepted")
            except ValueError:
                ctx.check(arg < 0, (name, arg), "rejected")
    try:
        S.MultipleCriteria([])
        ctx.fail("MultipleCriteria([])", "accepted")
    except ValueError:
        pass
    # A cost of any feasible solution, however large, is feasible.
    for cost in [0, -1, -(2**62), INF - 1, 2**53, 2**53 + 1, INF - 512]:
        ctx.states += 1
        ctx.check(S.FirstFeasible()(cost), cost, "feasible not seen")
    ctx.check(not S.FirstFeasible()(INF), INF, "infeasible seen as feasible")
