"""C20: fleet minimisation returns a sufficient, smaller-or-equal fleet."""

from mc import families as F
from mc import model as M

ID = "C20"
RULE = (
    "every instance with one vehicle type and <= 2 (thorough: 3) interacting "
    "features on 6 families (0-4 required clients, 0-2 shipments), every "
    "fleet size 1-4 and every moment 0-12 at which the stopping criterion may "
    "first say stop, or 300; the returned fleet is compared to the smallest fleet "
    "with a feasible solution, found by enumerating all solutions (and must "
    "equal it after 300 iterations with at most one feature), and an observer "
    "given through the parameters must have seen it suffice; every "
    "instance with several vehicle types or optional clients is rejected"
)
ASSUMPTIONS = ["the stopping criterion keeps saying stop once it said so"]


class StopAt:
    def __init__(self, when):
        self.when = when
        self.calls = 0

    def __call__(self, cost):
        self.calls += 1
        return self.calls > self.when


FAMILIES = [
    dict(nc=0, ns=0), dict(nc=1, ns=0), dict(nc=3, ns=0), dict(nc=1, ns=1),
    dict(nc=0, ns=2), dict(nc=4, ns=0),
]


def shards(tier):
    order = 2 if tier == "quick" else 3
    out = []
    for kw in FAMILIES:
        most = order - (kw["nc"] + 2 * kw["ns"] > 3)
        for chunk in F.chunks(list(F.subsets(most)), 96):
            out.append(dict(kind="runs", kw=kw, feats=chunk,
                            deep=tier != "quick"))
    out.append(dict(kind="seeds"))
    for chunk in F.chunks(list(F.subsets(order)), 8):
        out.append(dict(kind="rejected", feats=chunk))
    return out


def run(shard, ctx):
    globals()[shard["kind"]](ctx, shard)


def fewest(sp):
    """Fewest vehicles with which a feasible solution exists, if any."""
    cache = {}
    best = None
    for routes in F.solutions(sp, max_reload=2, partial=True):
        used = sum(1 for _, acts in routes if acts)
        if best is not None and used >= best:
            continue
        if M.solution_feasible(sp, routes, cache):
            best = used
            if best <= 1:
                break
    return best


def bound(sp):
    """Vehicles that total demand alone requires."""
    v = sp["vtypes"][0]
    out = 1
    for dim in range(M.num_dims(sp)):
        for key in ("d", "p"):
            total = sum(M.get(c[key], dim) for c in sp["clients"])
            room = M.get(v["cap"], dim) * M.max_trips(v)
            if room:
                out = max(out, -(-total // room))
    return out


def runs(ctx, shard):
    import pyvrp as pv
    from pyvrp import minimise_fleet

    for feats in shard["feats"]:
        sp = F.make(feats, nv=1, **shard["kw"])
        if any(not c["req"] for c in sp["clients"]):
            continue
        for num in (1, 2, 4) if not shard["deep"] else (1, 2, 3, 4):
            sp["vtypes"][0]["num"] = num
            data = M.build(sp)
            twin = M.build(sp)
            need = fewest(sp)
            low = min(bound(sp), num)
            times = (0, 1, 2, 3, 5, 12, 300)
            if shard["deep"]:
                times = (*range(13), 300)
            for when in times:
                for seed in (0, 1):
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.traces += 1
                    stop = StopAt(when)
                    ctx.note(lambda: dict(spec=sp, when=when, seed=seed))
                    params, seen = watched(pv)
                    got = minimise_fleet(data, stop, seed, params)

                    def case():
                        return dict(spec=sp, when=when, seed=seed, need=need)

                    k = got.num_available
                    if not 1 <= k <= num:
                        ctx.fail(case(), f"{k} vehicles of {num}")
                    if need is None and k != num:
                        ctx.fail(case(), f"{k} of {num} vehicles, though "
                                         "there are no feasible solutions")
                    if need is not None and k < need:
                        ctx.fail(case(), f"{k} vehicles, {need} needed")
                    if k < low:
                        ctx.fail(case(), f"{k} vehicles below bound {low}")
                    if got != data.vehicle_type(0).replace(num_available=k):
                        ctx.fail(case(), "other attributes changed")
                    if k < num and not any(
                        sol.is_feasible() and sol.num_routes() <= k
                        for sol in seen
                    ):
                        ctx.fail(case(), f"{k} vehicles, but no solution seen "
                                         f"by the observer given needs that few")
                    if data != twin:
                        ctx.fail(case(), "instance was changed")
                    if need is not None and k == max(need, 1):
                        ctx.count("smallest")
                    elif when == times[-1] and need is not None:
                        ctx.count("missed")
                        if len(feats) < 2:  # few restrictions: must succeed
                            ctx.fail(case(), f"{k} vehicles, {need} suffice")
                    ctx.count("vehicles_saved", num - k)
            ctx.sample(dict(spec=sp, need=need, got=k))


def watched(pv):
    """Parameters with an observer of the solutions found."""
    seen = []

    class Watch(pv.IteratedLocalSearchCallbacks):
        def on_iteration(self, current, candidate, best, cost_evaluator):
            seen.append(candidate)

        def on_end(self, result):
            seen.append(result.best)

    ils = pv.IteratedLocalSearchParams(callbacks=Watch())
    return pv.SolveParams(ils=ils), seen


def seeds(ctx, shard):
    """The seed decides the search: equal seeds, equal searches."""
    import pyvrp as pv
    from pyvrp import minimise_fleet

    sp = F.make((), nc=6, ns=0, nv=1)
    sp["vtypes"][0].update(num=6, cap=[4])
    data = M.build(sp)
    found = []
    for seed in range(12):
        runs = []
        for _ in range(2):
            params, seen = watched(pv)
            got = minimise_fleet(data, StopAt(20), seed, params)
            runs.append((got.num_available, [F.as_lists(s) for s in seen]))
        ctx.states += 1
        ctx.transitions += len(seen)
        ctx.traces += 2
        ctx.check(runs[0] == runs[1], seed, "same seed, different search")
        if runs[0] not in found:
            found.append(runs[0])
        if seed == 0:
            params, seen = watched(pv)
            minimise_fleet(data, StopAt(20), params=params)
            ctx.equal([F.as_lists(s) for s in seen], runs[0][1], seed,
                      "search with the default seed")
    ctx.check(len(found) > 1, 12, "the seed does not matter")


def rejected(ctx, shard):
    from pyvrp import minimise_fleet

    for feats in shard["feats"]:
        for nv in (1, 2, 3):
            sp = F.make(feats, nc=3, ns=0, nv=nv)
            ok = nv == 1 and all(c["req"] for c in sp["clients"])
            data = M.build(sp)
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            try:
                minimise_fleet(data, StopAt(0))
                if not ok:
                    ctx.fail(dict(spec=sp), "instance out of scope accepted")
            except ValueError as err:
                if ok:
                    ctx.fail(dict(spec=sp), f"rejected: {err}")
