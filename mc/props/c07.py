"""C07: exhaustive local search returns legal, complete, no-worse optima."""

import itertools

from mc import families as F
from mc import model as M
from mc import moves as V
from mc import wide as W

ID = "C07"
RULE = (
    "every instance with <= 2 (thorough: 3) interacting features, every legal "
    "start solution (complete or not, feasible or not; all assignments, "
    "orders and reloads), each with 3 (thorough: 6) seeds for the move order "
    "and 3 penalty settings: the real exhaustive search's result is checked "
    "for legality, completeness and cost against the reference model, and "
    "for local optimality by evaluating every configured move of a single "
    "visit and every move into an unused vehicle and, where all visits are "
    "required and there are no reloads, every configured pairwise move; a "
    "search step that does not perturb and has to insert visits leaves none "
    "of the inserted ones with such a move"
)
ASSUMPTIONS = [
    "move orders are those reached from the enumerated generator seeds",
    "all starts: at most 4 visits and 3 vehicles; a structured choice of "
    "starts on wide instances (70 clients, 6 shipments, 3 vehicle types)",
]
PENS = [(20, 6, 9), (1.5, 0.8, 0.4), (0, 0, 0)]


def shards(tier):
    order = 2 if tier == "quick" else 3
    out = []
    for kw in (
        dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2),
        dict(nc=0, ns=2, nv=1), dict(nc=2, ns=1, nv=1),
    ):
        for chunk in F.chunks(list(F.subsets(order)), 96):
            out.append(
                dict(kw=kw, feats=chunk, seeds=3 if tier == "quick" else 6)
            )
    for feats in F.subsets(1):
        out.append(
            dict(kw=dict(nc=4, ns=0, nv=1), feats=[feats],
                 seeds=2 if tier == "quick" else 6)
        )
    for name in W.FEATS:
        for seed in range(1, 3 if tier == "quick" else 9):
            out.append(dict(wide=name, seed=seed))
    return out


def BIG_FIRST(shard):
    return 1 if "wide" in shard else 0


def make_search(data, rng, pert=None, ops=None):
    from pyvrp import search as S

    kw = {} if pert is None else dict(perturbation_manager=pert)
    ls = S.LocalSearch(data, rng, S.compute_neighbours(data), **kw)
    for op in ops or S.OPERATORS:
        if op.supports(data):
            ls.add_operator(op(data))
    return ls


def run(shard, ctx):
    import pyvrp as pv
    from pyvrp import search as S

    if "wide" in shard:
        return run_wide(shard, ctx)

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        for k, v in enumerate(sp["vtypes"]):
            v["num"] = 2 if k == 0 else 1
        data = M.build(sp)
        dims = M.num_dims(sp)
        pens = [
            ([ld + 2 * d for d in range(dims)], tw, di) for ld, tw, di in PENS
        ]
        evs = [pv.CostEvaluator(*pen) for pen in pens]
        optimal = (
            all(c["req"] for c in sp["clients"])
            and all(s["req"] for s in sp["ships"])
            and not any(v["reload"] for v in sp["vtypes"])
        )
        mach = V.Machine(
            sp, data, only={op.__name__ for op in S.OPERATORS}
        )
        neigh = {
            str(k): [str(x) for x in v]
            for k, v in S.compute_neighbours(data).items()
        }
        cache = {}
        results = {}
        searches = [
            make_search(data, pv.RandomNumberGenerator(seed=seed))
            for seed in range(1, shard["seeds"] + 1)
        ]
        steps = []
        for seed in range(1, len(searches)):
            still = S.PerturbationManager(S.PerturbationParams(0, 0))
            rng = pv.RandomNumberGenerator(seed=seed)
            steps.append(make_search(data, rng, still))
        musts = [f"C{i}" for i, c in enumerate(sp["clients"]) if c["req"]]
        musts += [f"L{i}" for i, s in enumerate(sp["ships"]) if s["req"]]
        for routes in F.solutions(sp, max_reload=1 if not sp["ships"] else 0,
                                  max_len=4):
            ctx.states += 1
            sol = F.real_solution(pv, data, routes)
            start = {
                k: M.solution_cost(sp, routes, pen, cache)
                for k, pen in enumerate(pens)
            }
            complete = not any(M.missing(sp, routes))
            for num, k in itertools.product(
                range(len(searches)), range(len(pens))
            ):
                ls = searches[num]

                def case():
                    return dict(spec=sp, routes=routes, pen=pens[k],
                                seed=num + 1)

                ctx.transitions += 1
                ctx.traces += 1
                ctx.note(case)
                res = ls(sol, evs[k], exhaustive=True)
                new = F.as_lists(res)
                if not M.legal_solution(sp, new):
                    ctx.fail(case(), f"illegal result {new}")
                    continue
                for t, acts in new:
                    have = {int(a[1:]) for a in acts if a[0] == "D"}
                    if not have <= set(sp["vtypes"][t]["reload"]):
                        ctx.fail(case(), f"reload not allowed in {new}")
                if any(M.missing(sp, new)) or not res.is_complete():
                    ctx.fail(case(), f"incomplete result {new}")
                    continue
                cost = M.solution_cost(sp, new, pens[k], cache)
                if evs[k].penalised_cost(res) != cost:
                    ctx.fail(case(), f"result cost is not {cost}")
                if complete and cost > start[k]:
                    ctx.fail(case(), f"worse: {start[k]} -> {cost}: {new}")
                key = (k, tuple(V.canon(new)))
                if key not in results:
                    results[key] = improving(
                        mach, res, evs[k], neigh, optimal
                    )
                    ctx.count("optima_checked")
                if results[key]:
                    ctx.fail(
                        case(),
                        f"{results[key]} still improves {new}",
                    )
            had = {a for _, acts in routes for a in acts}
            added = frozenset(a for a in musts if a not in had)
            if not added:
                continue
            for num, k in itertools.product(range(len(steps)), (0, 1)):

                def case():
                    return dict(spec=sp, routes=routes, pen=pens[k],
                                seed=num + 1, step=True)

                ctx.transitions += 1
                ctx.traces += 1
                ctx.note(case)
                res = steps[num](sol, evs[k], exhaustive=False)
                key = (k, tuple(V.canon(F.as_lists(res))), added)
                if key not in results:
                    results[key] = improving(
                        mach, res, evs[k], neigh, optimal, added
                    )
                    ctx.count("steps_checked")
                if results[key]:
                    ctx.fail(
                        case(),
                        f"{results[key]} still improves {F.as_lists(res)}",
                    )
        ctx.sample(dict(spec=sp, last_start=routes, result=new))


def improving(mach, sol, ev, neigh, pairs, only=None):
    """A still improving move, if there is one: of one visit, into an unused
    vehicle or, if asked for, between neighbours."""
    mach.load(sol)
    for move in mach.moves():
        k, u, v = move
        if only is not None and u not in only:
            continue
        if v is not None and not pairs:
            if not v.startswith("start"):
                continue
            if len(mach.state.routes[int(v[6:])]) > 2:
                continue
        if v is not None and not v.startswith("start"):
            if v not in neigh[u]:
                continue
        elif v is not None:
            route = mach.state.routes[int(v[6:])]
            first = str(route[1].activity)
            if len(route) > 2 and first not in neigh[u]:
                continue
        delta, good = mach.evaluate(move, ev)
        if good and delta < 0:
            return mach.name(move), delta
    return None


def run_wide(shard, ctx):
    import pyvrp as pv

    sp = W.make(shard["wide"])
    W.fleet(sp)
    data = M.build(sp)
    pens = [([ld + 2 * d for d in range(3)], tw, di) for ld, tw, di in PENS]
    starts = [
        [], W.deal(sp, 4), W.deal(sp, 1), W.deal(sp, 5, skip=4),
        W.deal(sp, 6, reload=True), W.deal(sp, 20),
    ]
    ls = make_search(data, pv.RandomNumberGenerator(seed=shard["seed"]))
    cache = {}
    for routes in starts:
        ctx.states += 1
        sol = F.real_solution(pv, data, routes)
        complete = not any(M.missing(sp, routes))
        for pen in pens[:2]:
            def case():
                return dict(wide=shard["wide"], seed=shard["seed"], pen=pen,
                            routes=routes)

            ctx.transitions += 1
            ctx.traces += 1
            ctx.note(case)
            ev = pv.CostEvaluator(*pen)
            res = ls(sol, ev, exhaustive=True)
            new = F.as_lists(res)
            if not M.legal_solution(sp, new):
                ctx.fail(case(), "illegal result")
                continue
            if any(M.missing(sp, new)) or not res.is_complete():
                ctx.fail(case(), "incomplete result")
                continue
            cost = M.solution_cost(sp, new, pen, cache)
            if ev.penalised_cost(res) != cost:
                ctx.fail(case(), f"result cost is not {cost}")
            if complete:
                before = M.solution_cost(sp, routes, pen, cache)
                if cost > before:
                    ctx.fail(case(), f"worse: {before} -> {cost}")
    ctx.sample(dict(wide=shard["wide"], result=new))
