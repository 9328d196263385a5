"""C12: penalty weights under every history of registered solutions."""

import itertools
import warnings

from mc import model as M

ID = "C12"
RULE = (
    "the real PenaltyManager driven through every history of registrations: "
    "(a) all 16 combinations of violated dimensions (two loads, time, "
    "distance; real solutions), depth 4 (thorough: 5), windows of 1-4; "
    "(b) three violation levels, depth 7 (thorough: 9), over a grid of "
    "increase/decrease factors, targets, tolerances, bounds and initial "
    "weights, given as floats and (depth 6, thorough: 7) as whole numbers; "
    "after every registration the weights, both evaluators and the "
    "warnings raised are compared to an executable model; (c) all small "
    "parameter combinations are accepted or rejected as documented"
)
ASSUMPTIONS = [
    "parameters are dyadic fractions, so that the documented comparisons are "
    "exact"
]
TECHNIQUE = (
    "stateless model checking of the real penalty manager: all registration "
    "histories up to a depth against an executable reference model"
)
PARAMS = [  # window, increase, decrease, target, tolerance, min, max
    p
    for p in itertools.product(
        (1, 2, 3, 4), (1.0, 1.5), (0.0, 0.5, 1.0), (0.0, 0.5, 0.75, 1.0),
        (0.0, 0.125, 0.25, 1.0), ((0.25, 40.0), (0.0, 12.0), (6.0, 6.0)),
    )
]
INTS = [  # the same, but with bounds given as whole numbers
    p
    for p in itertools.product(
        (1, 2), (1, 1.5, 2), (0, 0.5), (0.5, 0.75), (0.0, 0.25),
        ((0, 12), (1, 40), (6, 6), (1, 40.0), (0.5, 40)),
    )
]
INT_INIT = [([3, 1], 5, 16), ([1, 0], 41, 2.5)]
INIT = [([3.0, 8.0], 5.0, 16.0), ([0.125, 100.0], 12.0, 6.0)]


def shards(tier):
    more = 0 if tier == "quick" else 1
    out = [dict(kind="args"), dict(kind="midpoint")]
    for first in range(16):
        for window in (1, 2, 3, 4):
            out.append(dict(kind="mix", first=first, window=window,
                            depth=4 + more))
    for idx in range(0, len(PARAMS), 48):
        out.append(dict(kind="deep", idx=idx, depth=7 + 2 * more))
    out.append(dict(kind="ints", depth=6 + more))
    return out


def instance():
    """One client per way to violate, and three levels of each violation."""
    num = 14
    dist = [[0] * num for _ in range(num)]
    dur = [[0] * num for _ in range(num)]
    dist[0][12] = 30
    dist[0][13] = 60
    sp = M.spec(
        dist=[dist], dur=[dur],
        depots=[M.depot(0)],
        clients=[
            M.client(1, d=[13, 0], p=[0, 0], req=False),
            M.client(2, d=[0, 14], p=[0, 0], req=False),
            M.client(3, d=[0, 0], p=[0, 0], req=False, l=7),
            M.client(12, d=[0, 0], p=[0, 0], req=False),
            M.client(4, d=[26, 28], p=[0, 0], req=False),
            M.client(13, d=[0, 0], p=[0, 0], req=False),
            M.client(5, d=[0, 0], p=[0, 0], req=False, l=4),
        ],
        ships=[],
        vtypes=[M.vtype(num=4, cap=[10, 10], maxdist=20, e=10, l=100)],
    )
    return sp


def expected(par, penalties, window, last):
    """Weights, average violation and warnings after a full window."""
    _, inc, dec, target, tol, (low, high) = par
    feas = sum(v == 0 for v in window) / len(window)
    new = penalties
    if abs(target - feas) >= tol:
        new = penalties * (inc if feas < target else dec)
        new = min(max(new, low), high)
    avg = sum(window) / len(window)
    warn = penalties >= high and target - feas >= tol and avg >= last
    return new, avg, warn


class Runner:
    def __init__(self, pv, ctx, sols):
        self.pv, self.ctx, self.sols = pv, ctx, sols
        from pyvrp.PenaltyManager import PenaltyManager, PenaltyParams
        from pyvrp.exceptions import PenaltyBoundWarning

        self.manager, self.params = PenaltyManager, PenaltyParams
        self.warning = PenaltyBoundWarning

    def observe(self, case, pm, pens, par):
        loads, tw, dist = pm.penalties()
        if [*loads, tw, dist] != pens:
            self.ctx.fail(case, f"weights {loads, tw, dist}, want {pens}")
            return
        for ev, want in (
            (pm.cost_evaluator(), pens),
            (pm.max_cost_evaluator(), [par[5][1]] * 4),
        ):
            got = [
                ev.load_penalty(1010, 10, 0), ev.load_penalty(1010, 10, 1),
                ev.tw_penalty(1000), ev.dist_penalty(1020, 20),
            ]
            if got != [int(1000 * w) for w in want]:
                self.ctx.fail(case, f"evaluator {got}, want weights {want}")

    def history(self, par, init, seq, observe_all=True):
        ctx = self.ctx
        case = dict(params=par, init=init, registered=seq)
        low, high = par[5]
        pm = self.manager(
            init, self.params(*par[:5], low, high)
        )
        pens = [min(max(p, low), high) for p in [*init[0], *init[1:]]]
        windows = [[] for _ in pens]
        last = [float("inf")] * 4
        ctx.traces += 1
        self.observe(case, pm, pens, par)
        for num, which in enumerate(seq):
            sol, viols = self.sols[which]
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                pm.register(sol)
            expect = 0
            for k, viol in enumerate(viols):
                windows[k].append(viol)
                if len(windows[k]) == par[0]:
                    pens[k], last[k], warn = expected(
                        par, pens[k], windows[k], last[k]
                    )
                    expect += warn
                    windows[k] = []
            ctx.transitions += 1
            got = sum(issubclass(w.category, self.warning) for w in seen)
            if got != expect:
                ctx.fail(case, f"{got} warnings at {num}, want {expect}")
            if observe_all or num == len(seq) - 1:
                self.observe(case, pm, pens, par)


def run(shard, ctx):
    import pyvrp as pv

    kind = shard["kind"]
    if kind == "args":
        return check_args(ctx)
    if kind == "midpoint":
        return check_midpoint(ctx, pv)

    sp = instance()
    data = M.build(sp)

    def real(visits):
        sol = pv.Solution(
            data,
            [pv.Route(data, [pv.Activity(f"C{c}")], 0) for c in visits],
        )
        viols = [*sol.excess_load(), sol.time_warp(), sol.excess_distance()]
        return sol, viols

    if kind == "mix":
        sols = []
        for bits in range(16):
            sol, viols = real([k for k in range(4) if bits >> k & 1])
            want = [(3, 4, 3, 10)[k] if bits >> k & 1 else 0 for k in range(4)]
            ctx.equal(viols, want, bits, "violations")
            sols.append((sol, viols))
        runner = Runner(pv, ctx, sols)
        pars = [p for p in PARAMS if p[0] == shard["window"]]
        pars = [
            p for p in pars
            if p[1:5] in ((1.5, 0.5, 0.5, 0.125), (1.5, 0.0, 0.75, 0.25),
                          (1.5, 0.5, 1.0, 0.0))
            and p[5] in ((0.25, 40.0), (0.0, 12.0))
        ]
        assert len(pars) == 6
        for rest in itertools.product(range(16), repeat=shard["depth"] - 1):
            ctx.states += 1
            for par in pars:
                init = INIT[par[5][0] == 0]
                runner.history(par, init, (shard["first"], *rest))
        ctx.sample(dict(par=par, init=init, registered=rest))
    else:
        sols = [real([]), real([0, 1, 2, 3]), real([4, 5, 6])]
        ctx.equal(
            [v for _, v in sols],
            [[0] * 4, [3, 4, 3, 10], [16, 18, 6, 40]], "levels", "violations",
        )
        runner = Runner(pv, ctx, sols)
        if kind == "ints":
            for par, init in itertools.product(INTS, INT_INIT):
                for seq in itertools.product(range(3), repeat=shard["depth"]):
                    ctx.states += 1
                    runner.history(par, init, seq, False)
            ctx.sample(dict(par=par, registered=seq))
            return
        for par in PARAMS[shard["idx"] : shard["idx"] + 48]:
            depth = shard["depth"] - 2 * (par[0] == 1)
            depth -= depth % par[0]  # whole windows
            for seq in itertools.product(range(3), repeat=depth):
                ctx.states += 1
                runner.history(par, INIT[par[4] > 0.2], seq, False)
        ctx.sample(dict(par=par, registered=seq))


def check_midpoint(ctx, pv):
    from pyvrp.PenaltyManager import PenaltyParams

    for dims in range(4):
        sp = instance()
        for c in sp["clients"]:
            c.update(d=[1] * dims, p=[0] * dims)
        sp["vtypes"][0]["cap"] = [10] * dims
        data = M.build(sp)
        for low, high in ((0.0, 0.0), (0.0, 3.0), (0.5, 4.0), (7.0, 7.0)):
            ctx.states += 1
            ctx.traces += 1
            par = PenaltyParams(min_penalty=low, max_penalty=high)
            mid = (low + high) / 2
            loads, tw, dist = par.midpoint_penalties(data)
            ctx.equal((list(loads), tw, dist), ([mid] * dims, mid, mid),
                      (dims, low, high), "initial weights")


def check_args(ctx):
    from pyvrp.PenaltyManager import PenaltyParams

    unit = (-0.5, 0.0, 0.5, 1.0, 1.5)
    for par in itertools.product(
        (-1, 0, 1, 2), (0.5, 1.0, 1.5), unit, unit, unit, (-1.0, 0.0, 2.0),
        (-1.0, 0.0, 2.0, 3.0),
    ):
        win, inc, dec, tgt, tol, low, high = par
        valid = (
            win >= 1 and inc >= 1 and 0 <= dec <= 1 and 0 <= tgt <= 1
            and 0 <= tol <= 1 and low >= 0 and high >= low
        )
        ctx.states += 1
        ctx.traces += 1
        try:
            got = PenaltyParams(*par)
        except ValueError:
            ctx.check(not valid, par, "valid parameters rejected")
        else:
            ctx.check(valid, par, "invalid parameters accepted")
            ctx.equal(
                (got.solutions_between_updates, got.penalty_increase,
                 got.penalty_decrease, got.target_feasible,
                 got.feas_tolerance, got.min_penalty, got.max_penalty),
                par, par, "attributes",
            )
