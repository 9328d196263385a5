"""C05: moves are valued exactly and keep solutions legal."""

from mc import families as F
from mc import model as M
from mc import moves as V
from mc import wide as W

ID = "C05"
RULE = (
    "every instance with <= 2 (thorough: 3) interacting features, every legal "
    "solution of it that plans all required visits (all assignments, orders, "
    "reload placements; feasible or not) as search state, every operator and "
    "every pair of nodes the local search may pass, under 2 penalty settings; "
    "every move reported as worth applying is applied to the real state, and "
    "legality and exact change in penalised cost are checked against the "
    "reference model; multi-trip instances always combine release times with opening "
    "hours; six-client instances cover all long-segment moves; wide instances "
    "(70 clients, 6 shipments, 26 vehicles of 3 types) with all moves that "
    "involve the first, last and block-boundary visits; and the moves applied "
    "in every exhaustive local search from every complete start solution, "
    "whose logged changes must sum to the change in cost"
)
ASSUMPTIONS = [
    "search states with at most 3 vehicles in use and 3-4 visits, or 6 "
    "visits on two vehicles; a structured choice of wide states",
    "operators are initialised on the state, as local search does",
]
PENS = [(20, 6, 9), (1.5, 0.8, 0.4)]
HANG = 400
DEALS = [
    dict(size=4), dict(size=6, reload=True), dict(size=3, skip=5),
]
EDGE = {"C0", "C1", "C63", "C64", "C65", "C69", "L0", "L3", "L5"}


def shards(tier):
    order = 2 if tier == "quick" else 3
    out = []
    families = [
        dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2),
        dict(nc=0, ns=2, nv=2), dict(nc=2, ns=1, nv=1),
    ]
    for kw in families:
        for chunk in F.chunks(list(F.subsets(order)), 96):
            out.append(dict(kw=kw, feats=chunk, max_len=4))
    # Families with one feature always on, combined with all others.
    forced = [
        (dict(prize="all"), dict(nc=1, ns=2, nv=1), 0),
        (dict(prize="all"), dict(nc=0, ns=3, nv=1), 0),
        (dict(prize="opt"), dict(nc=4, ns=0, nv=1), 0),
        (dict(group="req"), dict(nc=3, ns=0, nv=2), 0),
        (dict(group="opt"), dict(nc=4, ns=0, nv=1), 0),
        (dict(reload="many"), dict(nc=3, ns=0, nv=1), 2),
        (dict(reload="one"), dict(nc=1, ns=1, nv=2), 2),
        (dict(reload="many", rel="some", dtw="short"), dict(nc=3, nv=1), 2),
        (dict(reload="many", rel="tw", dserv="some"), dict(nc=3, nv=1), 2),
    ]
    for force, kw, reloads in forced:
        extra = (1 if tier == "quick" else 2) - (len(force) > 2)
        feats = [
            dict(f, **force)
            for f in F.subsets(extra)
            if not set(f) & set(force)
        ]
        for chunk in F.chunks(feats, 48):
            out.append(dict(kw=kw, feats=chunk, max_len=6, reloads=reloads))

    for name in W.FEATS:
        for k in range(len(DEALS)):
            out.append(dict(wide=name, deal=k, feats=[]))

    for kw in (
        dict(nc=0, ns=2, nv=2), dict(nc=1, ns=1, nv=2), dict(nc=3, ns=0, nv=2),
        dict(nc=0, ns=3, nv=1), dict(nc=4, ns=0, nv=1), dict(nc=1, ns=2, nv=1),
    ):
        few = kw["nc"] + 2 * kw["ns"] > 4 or kw["nc"] > 3
        for chunk in F.chunks(list(F.subsets(order - few)), 48):
            out.append(dict(driven=True, kw=kw, feats=chunk))

    order = 1 if tier == "quick" else 2
    for feats in F.subsets(order):
        if not set(feats) & {"stw", "group", "reload"}:
            for split in range(3):
                out.append(
                    dict(kw=dict(nc=6, ns=0, nv=2), feats=[feats], six=split)
                )
    return out


def BIG_FIRST(shard):
    return 1 if "six" in shard or "wide" in shard else 0


def six(sp, split):
    """All orderings of six clients over two routes, up to symmetry."""
    import itertools

    sizes = [(6, 0), (5, 1), (4, 2), (3, 3)]
    for a, b in sizes:
        for k, perm in enumerate(itertools.permutations(range(6))):
            if k % 3 != split:
                continue
            if a == b and perm[0] != 0:
                continue  # both vehicles differ, but this halves the space
            names = [f"C{i}" for i in perm]
            routes = [(0, names[:a])]
            if b:
                routes.append((1, names[a:]))
            yield routes


def run(shard, ctx):
    if "wide" in shard:
        sp = W.make(shard["wide"])
        W.fleet(sp)
        routes = W.deal(sp, **DEALS[shard["deal"]])
        for c in sp["clients"]:
            # Only what the state plans may be required.
            c["req"] = c["req"] and shard["deal"] != 2
        return explore(ctx, sp, [routes], PENS[:1], None, EDGE)
    if "driven" in shard:
        return driven(shard, ctx)
    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        for k, v in enumerate(sp["vtypes"]):
            v["num"] = 2 if k == 0 and "six" not in shard else 1
        if "six" in shard:
            only = {
                "Relocate2", "Relocate3", "Swap21", "Swap22", "Swap31",
                "Swap32", "Swap33", "SwapTails",
            }
            states = six(sp, shard["six"])
            pens = PENS[:1]
        else:
            only = None
            reloads = shard.get(
                "reloads", 0 if len(sp["ships"]) > 1 else 1
            )
            states = F.solutions(
                sp, max_reload=reloads, max_len=shard["max_len"]
            )
            pens = PENS
        explore(ctx, sp, states, pens, only)


def explore(ctx, sp, states, pens, only, edge=None):
    import pyvrp as pv

    mach = V.Machine(sp, only=only)
    dims = M.num_dims(sp)
    pens = [([ld + 2 * d for d in range(dims)], tw, di) for ld, tw, di in pens]
    evs = [pv.CostEvaluator(*pen) for pen in pens]
    cache, reals = {}, {}
    routes = []
    for routes in states:
        if any(M.missing(sp, routes)):
            continue
        ctx.states += 1
        rs = []
        for k, acts in routes:
            key = (k, tuple(acts))
            if key not in reals:
                reals[key] = F.real_route(pv, mach.data, k, acts)
            rs.append(reals[key])
        sol = pv.Solution(mach.data, rs)
        before = V.canon(routes)
        for pen, ev in zip(pens, evs):
            base = None
            mach.load(sol)
            todo = []
            for move in mach.moves():
                if edge and not edge & set(move[1:]):
                    continue
                ctx.transitions += 1
                delta, good = mach.evaluate(move, ev)
                if good:
                    todo.append((move, delta))
            # Evaluating must not have changed the state.
            after = F.as_lists(mach.state.unload())
            if V.canon(after) != before:
                ctx.fail(dict(spec=sp, routes=routes, pen=pen),
                         f"evaluation changed the state: {after}")

            for move, delta in todo:
                if base is None:
                    base = M.solution_cost(sp, routes, pen, cache)
                ctx.traces += 1
                ctx.count("applied")
                ctx.count("applied_" + mach.name(move).split("(")[0])

                def case():
                    return dict(spec=sp, routes=routes, pen=pen,
                                move=mach.name(move), delta=delta)

                mach.load(sol)
                again = mach.evaluate(move, ev)
                if again != (delta, True):
                    ctx.fail(case(), f"evaluation not repeatable: {again}")
                    continue
                mach.apply(move)
                for route in mach.state.routes:
                    if route.num_clients() + route.num_shipments() == 0:
                        route.clear()
                try:
                    new = F.as_lists(mach.state.unload())
                except Exception as err:
                    ctx.fail(case(), f"move yields illegal solution: {err}")
                    continue
                if not M.legal_solution(sp, new):
                    ctx.fail(case(), f"move yields illegal solution {new}")
                    continue
                if any(M.missing(sp, new)):
                    ctx.fail(case(), f"move drops required visits: {new}")
                    continue
                for k, acts in new:
                    have = {int(a[1:]) for a in acts if a[0] == "D"}
                    if not have <= set(sp["vtypes"][k]["reload"]):
                        ctx.fail(case(), f"reload not allowed in {new}")
                cost = M.solution_cost(sp, new, pen, cache)
                if cost - base != delta:
                    ctx.fail(
                        case(),
                        f"change {delta} reported, {cost - base} real: {new}",
                    )
                neutral = "RemoveAdjacentDepot" in mach.name(move)
                if delta > 0 or (delta == 0 and not neutral):
                    ctx.fail(case(), "move reported though not improving")
    ctx.sample(dict(spec=sp, last_state=routes))


def driven(shard, ctx):
    """Moves as the local search itself strings them together: operators keep
    caches between moves, which must not go stale."""
    import logging
    import re

    import pyvrp as pv
    from pyvrp import search as S

    deltas = []

    class Collect(logging.Handler):
        def emit(self, record):
            found = re.search(r"delta=(-?[0-9]+)", record.getMessage())
            if found:
                deltas.append(int(found.group(1)))

    logger = logging.getLogger("pyvrp.search")
    handler = Collect()
    old = logger.level, logger.propagate
    logger.addHandler(handler)
    logger.setLevel(logging.DEBUG)
    logger.propagate = False
    try:
        for feats in shard["feats"]:
            sp = F.make(feats, **shard["kw"])
            for k, v in enumerate(sp["vtypes"]):
                v["num"] = 2 if k == 0 else 1
            data = M.build(sp)
            dims = M.num_dims(sp)
            pen = [20 + 2 * d for d in range(dims)], 6, 9
            ev = pv.CostEvaluator(*pen)
            rng = pv.RandomNumberGenerator(seed=1)
            ls = S.LocalSearch(data, rng, S.compute_neighbours(data))
            for op in S.OPERATORS:
                if op.supports(data):
                    ls.add_operator(op(data))
            cache = {}
            for routes in F.solutions(
                sp, max_reload=0 if sp["ships"] else 1, max_len=6
            ):
                if any(M.missing(sp, routes)):
                    continue

                def case():
                    return dict(spec=sp, routes=routes, pen=pen, driven=True)

                ctx.states += 1
                ctx.traces += 1
                ctx.note(case)
                sol = F.real_solution(pv, data, routes)
                deltas.clear()
                res = ls(sol, ev, exhaustive=True)
                new = F.as_lists(res)
                if not M.legal_solution(sp, new) or any(M.missing(sp, new)):
                    ctx.fail(case(), f"illegal result {new}")
                    continue
                change = M.solution_cost(
                    sp, new, pen, cache
                ) - M.solution_cost(sp, routes, pen, cache)
                ctx.transitions += len(deltas)
                if not deltas:  # nothing applied (or nothing logged)
                    continue
                ctx.count("driven_moves", len(deltas))
                if any(d > 0 for d in deltas):
                    ctx.fail(case(), f"worsening move in {deltas}")
                if sum(deltas) != change:
                    ctx.fail(
                        case(), f"moves valued {deltas}, {sum(deltas)} in "
                        f"total, but the cost changed by {change}: {new}",
                    )
            ctx.sample(dict(spec=sp, last=routes))
    finally:
        logger.removeHandler(handler)
        logger.setLevel(old[0])
        logger.propagate = old[1]
