"""C09: perturbation and repair from every start, order and strength."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W
from mc.props.c08 import raw

ID = "C09"
RULE = (
    "every instance with <= 2 (thorough: 3) interacting features, <= 4 visits "
    "and 3 vehicles: every start solution (all assignments, orders, reloads; "
    "complete or not) x every order of "
    "the activities (quick: every second order with 2 features) x every "
    "strength 0..n+1 (with <= 1 feature, and in thorough, also x 2 "
    "neighbourhoods and 2 penalty settings): (a) the real perturbation "
    "changes exactly as many visits as configured, leaves all others in "
    "place and keeps shipments whole; (b) one perturbed search step returns a legal "
    "and complete solution; (c) the strengths drawn are within and reach all "
    "of the configured range; and both (a) and (b) on wide instances of each "
    "kind (70 clients, 6 shipments) at strengths up to beyond their size"
)
ASSUMPTIONS = [
    "every order of activities is reached through a generator seed that "
    "produces it; operator orders are those the same seeds give",
]
PENS = [(20, 6, 9), (1.5, 0.8, 0.4)]


def shards(tier):
    order = 2 if tier == "quick" else 3
    out = [dict(kind="strength")]
    for kw, num in (
        (dict(nc=3, ns=0, nv=2), 96), (dict(nc=1, ns=1, nv=2), 64),
        (dict(nc=0, ns=2, nv=1), 64), (dict(nc=2, ns=1, nv=1), 96),
    ):
        for chunk in F.chunks(list(F.subsets(order)), num):
            out.append(dict(kw=kw, feats=chunk))
    for feats in F.subsets(0 if tier == "quick" else 1):
        out.append(dict(kw=dict(nc=4, ns=0, nv=1), feats=[feats]))
    for name in W.FEATS:
        for seed in range(1, 3 if tier == "quick" else 9):
            out.append(dict(wide=name, seed=seed))
    for shard in out:
        shard["small"] = tier == "quick"
    return out


def BIG_FIRST(shard):
    return 1 if "wide" in shard else 0


def seeds_for_orders(pv, space_of, count):
    """One generator seed per reachable order of the activities."""
    found = {}
    for seed in range(1, 20_000):
        space = space_of()
        space.shuffle(pv.RandomNumberGenerator(seed=seed))
        key = tuple(str(a) for a in space.activity_order())
        found.setdefault(key, seed)
        if len(found) == count:
            break
    return found


def ls_seeds(pv, space_of, strength, count):
    """Generator seeds for which the local search's own shuffle, which draws
    the strength first, gives every order of the activities."""
    found = {}
    for seed in range(1, 20_000):
        rng = pv.RandomNumberGenerator(seed=seed)
        rng.randint(1)
        space = space_of()
        space.shuffle(rng)
        key = tuple(str(a) for a in space.activity_order())
        found.setdefault(key, seed)
        if len(found) == count:
            break
    return list(found.values())


def planned(routes):
    return {a for _, acts in routes for a in acts if a[0] in "CL"}


def per_vehicle(state):
    """Activities per vehicle, including empty vehicles."""
    return [
        [str(n.activity) for n in route][1:-1] for route in state.routes
    ]


def run(shard, ctx):
    import math

    import pyvrp as pv
    from pyvrp import search as S
    from pyvrp.search import _search as RAW

    if "kind" in shard:
        return check_strength(ctx, pv, S)
    if "wide" in shard:
        return run_wide(shard, ctx, pv, S, RAW)

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        for k, v in enumerate(sp["vtypes"]):
            v["num"] = 2 if k == 0 else 1
        data = M.build(sp)
        ops = [op for op in S.OPERATORS if op.supports(data)]
        dims = M.num_dims(sp)
        pens = [([ld + d for d in range(dims)], tw, di) for ld, tw, di in PENS]
        evs = [pv.CostEvaluator(*pen) for pen in pens]
        visits = len(sp["clients"]) + len(sp["ships"])
        hood = S.compute_neighbours(data)
        bare = {k: [] for k in hood}
        count = math.factorial(visits)

        def space_of(which=hood):
            return RAW.SearchSpace(data, which)

        orders = seeds_for_orders(pv, space_of, count)
        spaces = []
        small = shard["small"] and len(feats) > 1
        for which in (hood,) if small else (hood, bare):
            for seed in list(orders.values())[:: 1 + small]:
                space = space_of(which)
                space.shuffle(pv.RandomNumberGenerator(seed=seed))
                spaces.append((space, seed, which is bare))
        managers = [
            S.PerturbationManager(S.PerturbationParams(k, k))
            for k in range(visits + 2)
        ]
        state = RAW.Solution(data)
        # Local searches: one per activity order (x strength).
        seeds = ls_seeds(pv, space_of, 0, count)
        if visits == 4:
            seeds = seeds[::4]
        elif small:
            seeds = seeds[::2]
        searches = []
        for seed in seeds:
            for strength in range(0, visits + 1):
                ls, rng, keep = raw(
                    data, ops, seed, 1, (strength, strength)
                )
                searches.append((ls, seed, strength, rng, keep))

        cache = {}
        for routes in F.solutions(
            sp, max_reload=1, max_len=4 if not sp["ships"] else 6,
        ):
            ctx.states += 1
            sol = F.real_solution(pv, data, routes)
            state.load(sol)
            before = per_vehicle(state)
            had = planned(routes)

            # (a) perturbation on its own
            for space, seed, is_bare in spaces:
                for k, manager in enumerate(managers):
                    state.load(sol)
                    ev = evs[k % 2]

                    def case():
                        return dict(
                            spec=sp, routes=routes, seed=seed, strength=k,
                            bare=is_bare,
                        )

                    ctx.note(case)
                    manager.perturb(state, space, ev)
                    ctx.transitions += 1
                    ctx.traces += 1
                    after = per_vehicle(state)
                    bad = judge_perturbation(
                        sp, before, had, after, min(k, visits)
                    )
                    if bad:
                        ctx.fail(case(), f"{bad}: {before} -> {after}")

            # (b) the whole step
            for num, ev in enumerate(evs[:1] if small else evs):
                for ls, seed, strength, _, _ in searches:

                    def case():
                        return dict(
                            spec=sp, routes=routes, seed=seed, pen=pens[num],
                            strength=strength, step=True,
                        )

                    ctx.note(case)
                    res = ls(sol, ev, False)
                    ctx.transitions += 1
                    ctx.traces += 1
                    new = F.as_lists(res)
                    if not M.legal_solution(sp, new):
                        ctx.fail(case(), f"illegal result {new}")
                        continue
                    for t, acts in new:
                        have = {int(a[1:]) for a in acts if a[0] == "D"}
                        if not have <= set(sp["vtypes"][t]["reload"]):
                            ctx.fail(case(), f"reload not allowed in {new}")
                    if any(M.missing(sp, new)) or not res.is_complete():
                        ctx.fail(case(), f"incomplete result {new}")
                        continue
                    if ev.penalised_cost(res) != M.solution_cost(
                        sp, new, pens[num], cache
                    ):
                        ctx.fail(case(), f"wrong result cost of {new}")
        ctx.sample(dict(spec=sp, start=routes, result=new))


def run_wide(shard, ctx, pv, S, RAW):
    sp = W.make(shard["wide"])
    W.fleet(sp)
    data = M.build(sp)
    visits = len(sp["clients"]) + len(sp["ships"])
    ops = [op for op in S.OPERATORS if op.supports(data)]
    pen = [20, 22, 24], 6, 9
    ev = pv.CostEvaluator(*pen)
    starts = [[], W.deal(sp, 4), W.deal(sp, 5, skip=4),
              W.deal(sp, 6, reload=True), W.deal(sp, 20)]
    space = RAW.SearchSpace(data, S.compute_neighbours(data))
    space.shuffle(pv.RandomNumberGenerator(seed=shard["seed"]))
    state = RAW.Solution(data)
    cache = {}
    for strength in (0, 1, 2, 25, 63, 64, 65, visits - 1, visits, visits + 5):
        manager = S.PerturbationManager(
            S.PerturbationParams(strength, strength)
        )
        ls, rng, keep = raw(
            data, ops, shard["seed"], 1, (strength, strength)
        )
        for routes in starts:
            ctx.states += 1
            ctx.transitions += 2
            ctx.traces += 2

            def case():
                return dict(wide=shard["wide"], routes=routes,
                            seed=shard["seed"], strength=strength)

            ctx.note(case)
            sol = F.real_solution(pv, data, routes)
            state.load(sol)
            before = per_vehicle(state)
            manager.perturb(state, space, ev)
            bad = judge_perturbation(
                sp, before, planned(routes), per_vehicle(state),
                min(strength, visits),
            )
            if bad:
                ctx.fail(case(), bad)

            res = ls(sol, ev, False)
            new = F.as_lists(res)
            if not M.legal_solution(sp, new):
                ctx.fail(case(), "illegal result")
            elif any(M.missing(sp, new)) or not res.is_complete():
                ctx.fail(case(), "incomplete result")
            elif ev.penalised_cost(res) != M.solution_cost(
                sp, new, pen, cache
            ):
                ctx.fail(case(), "wrong result cost")
    ctx.sample(dict(wide=shard["wide"], start=routes))


def judge_perturbation(sp, before, had, after, num):
    now = [a for acts in after for a in acts if a[0] in "CL"]
    if len(now) != len(set(now)):
        return "planned twice"
    changed = had ^ set(now)
    if len(changed) != num:
        return f"changed {sorted(changed)}, not {num} visits"
    gone = {a for a in changed} | {"U" + a[1:] for a in changed if a[0] == "L"}
    types = F.fleet(sp)
    for k, (old, new) in enumerate(zip(before, after)):
        keep = [a for a in old if a not in gone]
        kept = [a for a in new if a not in gone]
        if keep != kept:
            return "other visits moved"
        if not M.legal_route(sp, types[k], new):
            return f"illegal route {new}"
    return None


def check_strength(ctx, pv, S):
    for low, high in itertools.product(range(6), repeat=2):
        ctx.states += 1
        try:
            params = S.PerturbationParams(low, high)
        except ValueError:
            ctx.check(low > high, (low, high), "valid bounds rejected")
            continue
        ctx.check(low <= high, (low, high), "invalid bounds accepted")
        ctx.equal(
            (params.min_perturbations, params.max_perturbations), (low, high),
            (low, high), "bounds",
        )
        pm = S.PerturbationManager(params)
        ctx.check(low <= pm.num_perturbations() <= high, (low, high), "start")
        seen = set()
        for seed in range(1, 200):
            rng = pv.RandomNumberGenerator(seed=seed)
            for _ in range(3):
                pm.shuffle(rng)
                seen.add(pm.num_perturbations())
                ctx.traces += 1
        ctx.equal(seen, set(range(low, high + 1)), (low, high), "strengths")
