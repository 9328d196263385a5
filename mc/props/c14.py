"""C14: solve results are sound."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W

ID = "C14"
RULE = (
    "every instance with <= 2 (thorough: 3) interacting features on 7 "
    "families (0-4 clients, 0-2 shipments, 1-4 vehicles of 1-2 types), 3 "
    "seeds, solved for 60 iterations by the real solver, and for every "
    "smaller number of iterations and from every legal initial solution on "
    "part of them; every candidate, current and best solution of every "
    "iteration and the result are executed by the reference model (legality, "
    "completeness, feasibility, objective, monotone best), and the result is "
    "compared to the optimum over all solutions; also under very low and "
    "high penalty bounds, and on 14 wide instances (70 clients, 6 shipments, "
    "27 vehicles of 3 types, 4 depots)"
)
ASSUMPTIONS = [
    "a feasible solution must be found on instances with at most one "
    "feature only",
]
HANG = 400


FAMILIES = [
    dict(nc=0, ns=0, nv=1), dict(nc=1, ns=0, nv=1), dict(nc=3, ns=0, nv=1),
    dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2), dict(nc=0, ns=2, nv=1),
    dict(nc=2, ns=1, nv=1), dict(nc=4, ns=0, nv=1),
]


def shards(tier):
    order = 2 if tier == "quick" else 3
    out = []
    for kw in FAMILIES:
        big = kw["nc"] + 2 * kw["ns"] > 3
        for chunk in F.chunks(list(F.subsets(order - big)), 64):
            out.append(dict(kind="runs", kw=kw, feats=chunk))
    few = order - 1
    for kw in FAMILIES[2:6]:
        for chunk in F.chunks(list(F.subsets(few)), 16):
            out.append(dict(kind="warm", kw=kw, feats=chunk))
            out.append(dict(kind="params", kw=kw, feats=chunk))
    for kw in FAMILIES[2:6]:
        for chunk in F.chunks(list(F.subsets(order - 1)), 16):
            out.append(dict(kind="weak", kw=kw, feats=chunk))
    for name in W.FEATS:
        out.append(dict(kind="wide", feat=name,
                        iters=30 if tier == "quick" else 150))
    return out


def BIG_FIRST(shard):
    return 1 if shard["kind"] == "wide" else 0


def run(shard, ctx):
    if shard["kind"] == "wide":
        return wide(ctx, shard)
    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        globals()[shard["kind"]](ctx, sp, feats)


class Judge:
    """Judges real solutions by the reference model."""

    def __init__(self, ctx, sp):
        self.ctx, self.sp = ctx, sp
        self.cache, self.known = {}, {}
        self.zero = ([0] * M.num_dims(sp), 0, 0)

    def __call__(self, sol, case):
        """Returns (feasible, objective); reports illegal solutions."""
        lists = F.as_lists(sol)
        key = tuple((k, tuple(a)) for k, a in lists)
        if key in self.known:
            return self.known[key]
        self.ctx.traces += 1
        sp = self.sp
        if not M.legal_solution(sp, lists):
            self.ctx.fail(case(), f"illegal solution {lists}")
        for k, acts in lists:
            have = {int(a[1:]) for a in acts if a[0] == "D"}
            if not have <= set(sp["vtypes"][k]["reload"]):
                self.ctx.fail(case(), f"forbidden reload in {lists}")
        feas = M.solution_feasible(sp, lists, self.cache)
        cost = M.solution_cost(sp, lists, self.zero, self.cache)
        if sol.is_feasible() != feas:
            self.ctx.fail(case(), f"feasible {sol.is_feasible()}, really "
                                  f"{feas}: {lists}")
        if sol.is_complete() == any(M.missing(sp, lists)):
            self.ctx.fail(case(), f"completeness wrong: {lists}")
        self.known[key] = (feas, cost)
        return feas, cost


def optimum(sp):
    """Objective of the best feasible solution, if any."""
    cache, best = {}, None
    zero = ([0] * M.num_dims(sp), 0, 0)
    for routes in F.solutions(sp, max_reload=2):
        if M.solution_feasible(sp, routes, cache):
            cost = M.solution_cost(sp, routes, zero, cache)
            if best is None or cost < best:
                best = cost
    return best


def solve(ctx, sp, data, judge, case, iters, seed, init=None, **ils):
    """Solves, judging every solution seen on the way."""
    import math

    import pyvrp as pv
    from pyvrp.stop import MaxIterations

    seen = []

    class Watch(pv.IteratedLocalSearchCallbacks):
        def on_iteration(self, current, candidate, best, ev):
            ctx.transitions += 1
            judge(current, case)
            judge(candidate, case)
            feas, cost = judge(best, case)
            seen.append(cost if feas else math.inf)

    operators = ils.pop("operators", None)
    penalty = ils.pop("penalty", None)
    params = dict(ils=pv.IteratedLocalSearchParams(callbacks=Watch(), **ils))
    if operators is not None:
        params["operators"] = operators
    if penalty is not None:
        params["penalty"] = penalty
    ctx.states += 1
    ctx.note(case)
    res = pv.solve(
        data, MaxIterations(iters), seed=seed, collect_stats=False,
        params=pv.SolveParams(**params), initial_solution=init,
    )
    feas, cost = judge(res.best, case)
    want = cost if feas else math.inf
    ctx.equal(res.cost(), want, case, "result cost")
    ctx.equal(res.is_feasible(), feas, case, "result feasibility")
    if seen and seen[-1] != want:
        ctx.fail(case(), f"result costs {want}, best was {seen[-1]}")
    if any(b > a for a, b in zip(seen, seen[1:])):
        ctx.fail(case(), f"best solution got worse: {seen}")
    if init is not None:
        f0, c0 = judge(init, case)
        if f0 and want > c0:
            ctx.fail(case(), f"result {want} is worse than initial {c0}")
    return want


def runs(ctx, sp, feats):
    import math

    data = M.build(sp)
    judge = Judge(ctx, sp)
    opt = optimum(sp)
    best = math.inf if opt is None else opt
    for seed in (0, 1, 2):
        def case():
            return dict(spec=sp, seed=seed, opt=opt)

        got = solve(ctx, sp, data, judge, case, 60, seed)
        reloads = any(v["reload"] for v in sp["vtypes"])
        if got < best and not reloads:
            ctx.fail(case(), f"cost {got} is below the optimum {opt}")
        if got > best:
            ctx.count("not_optimal")
            if got == math.inf:
                ctx.count("not_feasible")
                if len(feats) < 2:  # without conflicting restrictions
                    ctx.fail(case(), f"feasible solution of {opt} not found")
        else:
            ctx.count("optimal")
    ctx.sample(dict(spec=sp, opt=opt, got=str(got)))


def warm(ctx, sp, feats):
    """Every initial solution, few iterations."""
    import pyvrp as pv

    data = M.build(sp)
    judge = Judge(ctx, sp)
    for routes in F.solutions(sp, max_reload=1):
        init = F.real_solution(pv, data, routes)
        for iters in (0, 2):
            def case():
                return dict(spec=sp, init=routes, iters=iters)

            solve(ctx, sp, data, judge, case, iters, 7, init)
            if F.as_lists(init) != F.as_lists(
                F.real_solution(pv, data, routes)
            ):
                ctx.fail(case(), "initial solution was changed")


def params(ctx, sp, feats):
    """Other algorithm parameters and operator sets."""
    from pyvrp.search import OPERATORS

    data = M.build(sp)
    judge = Judge(ctx, sp)
    ops = list(OPERATORS)
    sets = [ops, [], ops[::-1]] + [[op] for op in ops]
    for num, chosen in enumerate(sets):
        for hist, noimp, exh in itertools.product((1, 3), (0, 2), (0, 1)):
            if num > 1 and (hist, noimp) != (3, 2):
                continue

            def case():
                return dict(spec=sp, ops=[op.__name__ for op in chosen],
                            ils=(hist, noimp, exh))

            solve(ctx, sp, data, judge, case, 8, 3, operators=chosen,
                  history_length=hist, num_iters_no_improvement=noimp,
                  exhaustive_on_best=bool(exh))


def weak(ctx, sp, feats):
    """Penalties so low (or high) that infeasible solutions look better (or
    hardly differ), from every kind of start."""
    import pyvrp as pv

    data = M.build(sp)
    judge = Judge(ctx, sp)
    for low, high in ((0.1, 0.2), (0.1, 1.0), (0.1, 4.0), (1e5, 1e5)):
        par = pv.PenaltyParams(
            solutions_between_updates=3, min_penalty=low, max_penalty=high
        )
        for seed, exh in itertools.product((1, 2), (False, True)):
            def case():
                return dict(spec=sp, seed=seed, penalty=(low, high), exh=exh)

            with quiet_warnings():
                solve(ctx, sp, data, judge, case, 20, seed, penalty=par,
                      num_iters_no_improvement=4, history_length=2,
                      exhaustive_on_best=exh)


def quiet_warnings():
    import contextlib
    import warnings

    @contextlib.contextmanager
    def inner():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield

    return inner()


def wide(ctx, shard):
    import pyvrp as pv

    sp = W.make(shard["feat"])
    W.fleet(sp)
    data = M.build(sp)
    judge = Judge(ctx, sp)
    init = F.real_solution(pv, data, W.deal(sp, 3))
    for seed in (1, 2):
        def case():
            return dict(wide=shard["feat"], seed=seed)

        with quiet_warnings():
            solve(ctx, sp, data, judge, case, shard["iters"], seed)
            for high in (0.1, 3.0):
                par = pv.PenaltyParams(min_penalty=0.1, max_penalty=high)
                solve(ctx, sp, data, judge, case, shard["iters"], seed,
                      init=init, penalty=par, num_iters_no_improvement=9)
    ctx.sample(dict(wide=shard["feat"]))
