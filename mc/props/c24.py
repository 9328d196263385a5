"""C24: run statistics and results report and round-trip what happened."""

import csv
import itertools
import logging
import math
import os
import pathlib
import tempfile

from mc import families as F
from mc import model as M
from mc.props.c11 import the_clock

ID = "C24"
RULE = (
    "every history of <= 3 (thorough: 4) collected iterations over 4 "
    "solutions (feasible, infeasible, incomplete, cheap) as current, "
    "candidate and best, 2 cost evaluators (one with costs beyond 2^53) and 3 "
    "clock steps, collecting or not, compared to a reference record, to each "
    "other, and after writing to and reading from file with every delimiter "
    "and quoting; progress output along every history of <= 5 (thorough: 6) "
    "iterations, clock steps, restarts and intervals; the result and its "
    "summary for every solution of every instance with <= 2 (thorough: 3) "
    "features and all small iteration counts and runtimes; real runs of 16 "
    "iterations for every such instance, whose statistics are compared to "
    "what callbacks observe"
)
ASSUMPTIONS = ["time only advances between calls (controlled clock)"]
TECHNIQUE = (
    "stateless model checking of the real classes under a controlled clock: "
    "all call histories up to a depth against an executable reference model"
)
STEPS = (0.0, 0.1, 2.75)


def shards(tier):
    quick = tier == "quick"
    out = []
    for collecting in (True, False):
        for first in range(24):
            out.append(dict(kind="collect", collecting=collecting,
                            first=first, depth=2 if quick else 3))
    for delim in ",;\t|":
        for quoting in (0, 1, 2, 3):
            out.append(dict(kind="files", delim=delim, quoting=quoting))
    for interval in (0.0, 1.0, 5.0):
        for show in (True, False):
            for collecting in (True, False):
                out.append(dict(kind="progress", interval=interval, show=show,
                                collecting=collecting,
                                depth=5 if quick else 6))
    order = 2 if quick else 3
    for kw in (dict(nc=2, ns=0, nv=2), dict(nc=1, ns=1, nv=2)):
        for chunk in F.chunks(list(F.subsets(order)), 24):
            out.append(dict(kind="results", kw=kw, feats=chunk))
            out.append(dict(kind="runs", kw=kw, feats=chunk))
    return out


def run(shard, ctx):
    globals()[shard["kind"]](ctx, shard)


def pool():
    """Four solutions of an instance with optional clients, and evaluators."""
    import pyvrp as pv

    sp = F.make(dict(prize="opt", vtw="short"), nc=3, ns=0, nv=1)
    sp["clients"][0]["req"] = True
    sp["clients"][0]["l"] = 9
    sp["vtypes"][0].update(cap=[3], fixed=11)
    data = M.build(sp)
    kinds = {}
    for routes in F.solutions(sp, max_reload=0, max_len=3):
        key = (bool(any(M.missing(sp, routes))), M.solution_feasible(sp, routes))
        kinds.setdefault(key, []).append(routes)
    assert (False, True) in kinds and (False, False) in kinds
    pick = [kinds[False, True][0], kinds[False, True][-1],
            kinds[False, False][0], kinds[True, False][0]]
    sols = [F.real_solution(pv, data, r) for r in pick]
    pens = [([20], 6, 9), ([2.0**50], 2.0**50 + 4, 1)]
    costs = [[M.solution_cost(sp, r, pen) for r in pick] for pen in pens]
    feas = [M.solution_feasible(sp, r) for r in pick]
    return sols, [pv.CostEvaluator(*p) for p in pens], costs, feas


# -- statistics -----------------------------------------------------------------

FIELDS = ("current_cost", "current_feas", "candidate_cost", "candidate_feas",
          "best_cost", "best_feas")


def expect(event, costs, feas):
    cu, ca, be, ev, step = event
    return (costs[ev][cu], feas[cu], costs[ev][ca], feas[ca], costs[ev][be],
            feas[be])


def entries(stats):
    return [tuple(getattr(d, f) for f in FIELDS) for d in stats.data]


def play(history, collecting, clock, sols, evs):
    from pyvrp import Statistics

    clock.now = 1000.0
    stats = Statistics(collect_stats=collecting)
    for cu, ca, be, ev, step in history:
        clock.now += STEPS[step]
        stats.collect(sols[cu], sols[ca], sols[be], evs[ev])
    return stats


def close(one, two):
    return len(one) == len(two) and all(
        abs(a - b) < 1e-9 for a, b in zip(one, two)
    )


def events():
    # All combinations of solutions; evaluator and clock step vary jointly.
    return [
        (cu, ca, be, ev, step)
        for cu in range(4)
        for ca in range(4)
        for be in range(4)
        for ev, step in ((0, 0), (1, 1), (0, 2), (1, 2))
    ]


def collect(ctx, shard):
    sols, evs, costs, feas = pool()
    clock = the_clock()
    alphabet = events()
    collecting = shard["collecting"]
    small = [e for k, e in enumerate(alphabet) if k % 7 == 0]
    for depth in range(shard["depth"] + 1):
        for rest in itertools.product(
            small if depth > 1 else alphabet, repeat=depth
        ):
            for first in alphabet[shard["first"] :: 24]:
                history = (first, *rest)
                ctx.states += 1
                ctx.transitions += len(history)
                ctx.traces += 1
                stats = play(history, collecting, clock, sols, evs)
                seen = history if collecting else ()

                def case():
                    return dict(history=history, collecting=collecting)

                want = [expect(e, costs, feas) for e in seen]
                ctx.equal(entries(stats), want, case, "entries")
                ctx.equal(stats.num_iterations, len(seen), case, "iterations")
                if not close(stats.runtimes, [STEPS[e[4]] for e in seen]):
                    ctx.fail(case(), f"runtimes {stats.runtimes}")
                ctx.equal(list(stats), stats.data, case, "iteration")
                ctx.equal(stats.is_collecting(), collecting, case, "flag")
    ctx.sample(dict(history=history, entries=entries(stats)))


def files(ctx, shard):
    from pyvrp import Statistics

    sols, evs, costs, feas = pool()
    clock = the_clock()
    alphabet = [e for k, e in enumerate(events()) if k % 11 == 0]
    known = []
    with tempfile.TemporaryDirectory(prefix="verif-c24-") as tmp:
        where = os.path.join(tmp, "stats.csv")
        for depth in range(3):
            for history in itertools.product(alphabet, repeat=depth):
                ctx.states += 1
                stats = play(history, True, clock, sols, evs)

                def case():
                    return dict(history=history, **shard)

                target = pathlib.Path(where) if depth % 2 else where
                stats.to_csv(target, delimiter=shard["delim"],
                             quoting=shard["quoting"])
                again = Statistics.from_csv(target, delimiter=shard["delim"])
                ctx.transitions += 2
                ctx.traces += 1
                if entries(again) != entries(stats):
                    ctx.fail(case(), f"read back {entries(again)}, wrote "
                                     f"{entries(stats)}")
                for one, two in zip(entries(again), entries(stats)):
                    ctx.equal([type(v) for v in one], [type(v) for v in two],
                              case, "types")
                ctx.equal(again.runtimes, stats.runtimes, case, "runtimes")
                ctx.equal(again.num_iterations, stats.num_iterations, case,
                          "iterations")
                ctx.equal(again == stats, True, case, "equality")
                with open(where, newline="") as fh:
                    rows = list(csv.reader(fh, delimiter=shard["delim"]))
                ctx.equal(rows[0], ["runtime", *FIELDS], case, "header")
                ctx.equal(len(rows), depth + 1, case, "rows")
                known.append((stats, tuple(entries(stats)),
                              tuple(stats.runtimes)))
    # Equal exactly when the contents are.
    for one, two in itertools.product(known[:260], repeat=2):
        ctx.transitions += 1
        if (one[0] == two[0]) != (one[1:] == two[1:]):
            ctx.fail(dict(one=one[1:], two=two[1:]), "equality wrong")
        if (one[0] != two[0]) == (one[1:] == two[1:]):
            ctx.fail(dict(one=one[1:], two=two[1:]), "inequality wrong")
    for other in (0, None, "stats", entries(known[0][0])):
        ctx.check(not known[0][0] == other, dict(other=other), "equality")
    off = play(alphabet[:2], False, clock, sols, evs)
    ctx.check(not off == known[0][0], {}, "equality ignores collecting")


# -- progress output --------------------------------------------------------------


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def progress(ctx, shard):
    from pyvrp import Statistics
    from pyvrp.ProgressPrinter import ProgressPrinter

    sols, evs, costs, feas = pool()
    clock = the_clock()
    log = logging.getLogger("pyvrp")
    handler = Lines()
    log.addHandler(handler)
    log.setLevel(logging.INFO)
    log.propagate = False
    # (current, candidate, best, clock step), or a restart.
    acts = [
        (cu, ca, be, step)
        for cu, ca, be in ((0, 2, 0), (3, 1, 1), (2, 0, 2), (1, 3, 0))
        for step in (0.0, 1.0, 2.0, 5.0)
    ] + ["restart"]
    if shard["depth"] > 3:
        acts = [a for k, a in enumerate(acts) if k % 2 == 0]
    show, gap = shard["show"], shard["interval"]
    for depth in range(shard["depth"] + 1):
        for seq in itertools.product(acts, repeat=depth):
            ctx.states += 1
            ctx.traces += 1
            handler.lines.clear()
            clock.now = 1000.0
            stats = Statistics(collect_stats=shard["collecting"])
            printer = ProgressPrinter(show, gap)
            last, best, total, iters, want = clock.now, math.inf, 0, 0, []
            for act in seq:
                ctx.transitions += 1
                if act == "restart":
                    printer.restart()
                    if show:
                        want.append("restart")
                    continue
                cu, ca, be, step = act
                clock.now += step
                total += step
                iters += 1
                stats.collect(sols[cu], sols[ca], sols[be], evs[0])
                printer.iteration(stats)
                if show and shard["collecting"] and clock.now - last >= gap:
                    last = clock.now
                    new = feas[be] and costs[0][be] < best
                    if new:
                        best = costs[0][be]
                    row = ["H"] if new else []
                    row += [str(iters), f"{round(total)}s", "|"]
                    for k in (cu, ca, be):
                        row += [str(costs[0][k]), "Y" if feas[k] else "N"]
                    want.append(row)

            got = [
                "restart" if "restart" in line else line.split()
                for line in handler.lines
            ]
            if got != want:
                ctx.fail(dict(seq=seq, **shard), f"printed {got}, want {want}")
    log.removeHandler(handler)
    ctx.sample(dict(seq=seq, printed=got))


# -- results ----------------------------------------------------------------------


def parse(summary):
    out = {}
    for line in summary.splitlines():
        if ":" in line:
            key, _, val = line.partition(":")
            out[key.strip()] = val.strip()
    return out


def results(ctx, shard):
    import pyvrp as pv
    from pyvrp import Result, Statistics

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        data = M.build(sp)
        cache = {}
        dims = M.num_dims(sp)
        for routes in F.solutions(sp, max_reload=1, max_len=3):
            ctx.states += 1
            sol = F.real_solution(pv, data, routes)
            feas = M.solution_feasible(sp, routes, cache)
            cost = math.inf
            if feas:
                cost = M.solution_cost(sp, routes, ([0] * dims, 0, 0), cache)
            used = [r for r in routes if r[1]]
            acts = [a for _, r in used for a in r]
            stats = [M.evaluate(sp, k, r) for k, r in used]
            want = {
                "# routes": str(len(used)),
                "# trips": str(sum(len(M.trips(r)) for _, r in used)),
                "# clients": str(sum(a[0] == "C" for a in acts)),
                "# shipments": str(sum(a[0] == "L" for a in acts)),
                "objective": str(cost) if feas else "INFEASIBLE",
                "distance": str(sum(s["distance"] for s in stats)),
                "duration": str(sum(s["duration"] for s in stats)),
            }
            for iters, runtime in ((0, 0.0), (3, 0.126), (7, 1234.5)):
                ctx.transitions += 1
                ctx.traces += 1

                def case():
                    return dict(spec=sp, routes=routes, iters=iters)

                res = Result(sol, Statistics(), iters, runtime)
                ctx.equal(res.cost(), cost, case, "cost")
                ctx.equal(res.is_feasible(), feas, case, "feasible")
                ctx.equal(res.num_iterations, iters, case, "iterations")
                ctx.equal(res.runtime, runtime, case, "runtime")
                ctx.check(res.best is sol, case, "best")
                want["# iterations"] = str(iters)
                want["run-time"] = f"{runtime:.2f} seconds"
                ctx.equal(parse(res.summary()), want, case, "summary")
                text = str(res)
                ctx.check(
                    res.summary() in text and text.endswith(str(sol)), case,
                    "text",
                )
            for iters, runtime in ((-1, 0.0), (0, -0.1), (-1, -1.0)):
                ctx.transitions += 1
                try:
                    Result(sol, Statistics(), iters, runtime)
                    ctx.fail(dict(iters=iters, runtime=runtime), "accepted")
                except ValueError:
                    pass


def runs(ctx, shard):
    import pyvrp as pv
    from pyvrp.stop import MaxIterations

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        data = M.build(sp)
        for seed in (1, 2):
            for collecting in (True, False):
                ctx.states += 1
                seen, news, ends = [], [], []

                class Watch(pv.IteratedLocalSearchCallbacks):
                    def on_iteration(self, current, candidate, best, ev):
                        seen.append((current, candidate, best, tuple(
                            ev.penalised_cost(s)
                            for s in (current, candidate, best)
                        )))

                    def on_best(self, best):
                        news.append(best)

                    def on_end(self, result):
                        ends.append(result)

                params = pv.SolveParams(
                    ils=pv.IteratedLocalSearchParams(
                        num_iters_no_improvement=4, history_length=2,
                        callbacks=Watch(),
                    ),
                )
                res = pv.solve(data, MaxIterations(16), seed=seed,
                               collect_stats=collecting, display=False,
                               params=params)
                ctx.transitions += 16
                ctx.traces += 1

                def case():
                    return dict(spec=sp, seed=seed, collecting=collecting)

                ctx.equal(len(seen), 16, case, "iterations")
                ctx.equal(res.num_iterations, 16, case, "num_iterations")
                ctx.check(res.runtime >= 0, case, "runtime")
                ctx.check(res.best == seen[-1][2], case, "best")
                ctx.check(len(ends) == 1 and ends[0].best == res.best, case,
                          "on_end")
                if news:
                    ctx.check(news[-1] == res.best, case, "on_best")
                want = []
                for cu, ca, be, costs in seen:
                    want.append((costs[0], cu.is_feasible(), costs[1],
                                 ca.is_feasible(), costs[2],
                                 be.is_feasible()))
                if not collecting:
                    want = []
                ctx.equal(entries(res.stats), want, case, "entries")
                ctx.equal(res.stats.num_iterations, len(want), case, "count")
                ctx.equal(len(res.stats.runtimes), len(want), case, "times")
                ctx.check(all(t >= 0 for t in res.stats.runtimes), case,
                          "negative runtime")
                ctx.check(sum(res.stats.runtimes) <= res.runtime + 0.05, case,
                          "runtimes exceed total")
                lists = F.as_lists(res.best)
                ctx.equal(res.is_feasible(), M.solution_feasible(sp, lists),
                          case, "feasible")
