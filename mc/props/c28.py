"""C28: insertions take the cheapest place considered, or none."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W
from mc.props.c09 import per_vehicle

ID = "C28"
RULE = (
    "every instance with <= 2 (thorough: 3) interacting features, <= 3 visits "
    "and 3 vehicles of up to two types, and with one feature less <= 4 visits: "
    "every start solution (all "
    "assignments, orders, reloads) x every unplanned client or shipment x "
    "neighbourhoods (all subsets of the other activities; with 3 features "
    "none, one and all) x all orders of vehicle types "
    "x required or not x 2 penalty settings; the real insertion must give "
    "exactly the cost change of the cheapest place among all those the "
    "reference model enumerates, leave everything else in place, and insert "
    "nothing when optional and not improving; and wide instances (70 clients, "
    "6 shipments)"
)
ASSUMPTIONS = [
    "vehicles of types that can be opened are tried in the order the search "
    "space gives, up to the first that improves on the places found so far",
]
PENS = [(20, 6, 9), (1.5, 0.8, 0.4)]


def shards(tier):
    order = 2 if tier == "quick" else 3
    out = []
    for kw, num in (
        (dict(nc=3, ns=0, nv=2), 48), (dict(nc=1, ns=1, nv=2), 48),
        (dict(nc=0, ns=2, nv=2), 48), (dict(nc=2, ns=1, nv=1), 48),
    ):
        for chunk in F.chunks(list(F.subsets(order)), num):
            out.append(dict(kw=kw, feats=chunk))
    for feats in F.subsets(order - 1):
        for kw in (dict(nc=4, ns=0, nv=1), dict(nc=1, ns=2, nv=1),
                   dict(nc=3, ns=1, nv=1)):
            out.append(dict(kw=kw, feats=[feats]))
    for name in W.FEATS:
        out.append(dict(wide=name))
    for shard in out:
        shard["small"] = tier != "quick"
    return out


def BIG_FIRST(shard):
    return 1 if "wide" in shard else 0


class Oracle:
    """Cost changes of all places, by executing the changed route."""

    def __init__(self, sp, pen):
        self.sp, self.pen = sp, pen
        self.types = F.fleet(sp)
        self.cache = {}

    def cost(self, k, acts):
        if not any(a[0] != "D" for a in acts):
            return 0
        key = (k, tuple(acts))
        if key not in self.cache:
            stats = M.evaluate(self.sp, k, acts)
            self.cache[key] = M.route_cost(stats, self.pen)
        return self.cache[key]

    def change(self, old, new, veh):
        k = self.types[veh]
        return self.cost(k, new[veh]) - self.cost(k, old[veh])

    def places(self, state, item, veh, after):
        """Changed activities of the vehicle when item starts after the given
        position (-1: the start depot)."""
        acts = state[veh]
        pos = after + 1
        if len(item) == 1:
            yield acts[:pos] + item + acts[pos:]
            return
        end = pos
        while True:
            yield acts[:pos] + item[:1] + acts[pos:end] + item[1:] + acts[end:]
            if end == len(acts) or acts[end][0] == "D":
                return
            end += 1

    def best(self, state, item, hood, order):
        """Cost change of the insertion, without prize, or None."""
        sp = self.sp
        where = {
            a: (veh, pos)
            for veh, acts in enumerate(state)
            for pos, a in enumerate(acts)
            if a[0] != "D"
        }
        spots = {(0, -1)} if len(item) == 1 else set()
        for name in hood:
            if name in where:
                veh, pos = where[name]
                spots.add((veh, pos))
                if len(item) == 2:
                    spots.add((veh, pos - 1))
        best = None
        for veh, after in spots:
            for acts in self.places(state, item, veh, after):
                k = self.types[veh]
                delta = self.cost(k, acts) - self.cost(k, state[veh])
                if best is None or delta < best:
                    best = delta
        for k in order:
            empty = next(
                (
                    v for v, t in enumerate(self.types)
                    if t == k and not any(a[0] != "D" for a in state[v])
                ),
                None,
            )
            if empty is not None:
                delta = self.cost(k, item + state[empty])
                if best is None or delta < best:
                    return delta
        return best

    def fallback(self, state, item):
        k = self.types[0]
        return self.cost(k, item + state[0]) - self.cost(k, state[0])


def type_orders(pv, RAW, data, hood, every):
    """Generator seeds giving each order of the vehicle types."""
    found = {}
    for seed in range(1, 40):
        space = RAW.SearchSpace(data, hood)
        space.shuffle(pv.RandomNumberGenerator(seed=seed))
        found.setdefault(tuple(k for k, _ in space.veh_type_order()), seed)
    return list(found.values())[: None if every else 1]


def attempt(ctx, pv, state, sol, before, item, space, ev, oracle, required,
            hood, prize, case):
    """One real insertion, judged against the model."""
    state.load(sol)
    nodes = [state[pv.Activity(a)] for a in item]
    order = [k for k, _ in space.veh_type_order()]
    want = oracle.best(before, item, hood, order)
    does = required or (want is not None and want - prize < 0)
    if want is None:
        want = oracle.fallback(before, item)
    ctx.note(case)
    done = state.insert(*nodes, space, ev, required)
    ctx.transitions += 1
    ctx.traces += 1
    after = per_vehicle(state)
    for node in nodes:
        if node.route is not None:
            node.route.update()
    if done != does:
        ctx.fail(case(), f"inserted: {done}, best change {want - prize}")
    elif not done:
        if after != before:
            ctx.fail(case(), f"changed without inserting: {after}")
    else:
        routes = [n.route for n in nodes]
        if any(r is None for r in routes):
            return ctx.fail(case(), f"not inserted: {after}")
        left = [[a for a in acts if a not in item] for acts in after]
        changed = [v for v in range(len(after)) if after[v] != before[v]]
        if left != before or len(changed) != 1:
            return ctx.fail(case(), f"other activities moved: {after}")
        veh = changed[0]
        if [a for a in after[veh] if a in item] != item:
            return ctx.fail(case(), f"wrong order: {after}")
        if len(item) == 2:
            first, last = (after[veh].index(a) for a in item)
            if any(a[0] == "D" for a in after[veh][first:last]):
                return ctx.fail(case(), f"spans trips: {after}")
        got = oracle.change(before, after, veh)
        if got != want:
            ctx.fail(case(), f"changes cost by {got}, not {want}: {after}")


def unplanned(sp, state):
    have = {a for acts in state for a in acts}
    items = [([f"C{i}"], c["prize"]) for i, c in enumerate(sp["clients"])]
    items += [
        ([f"L{i}", f"U{i}"], s["prize"]) for i, s in enumerate(sp["ships"])
    ]
    return [(item, prize) for item, prize in items if item[0] not in have]


def run(shard, ctx):
    import pyvrp as pv
    from pyvrp import search as S
    from pyvrp.search import _search as RAW

    if "wide" in shard:
        return run_wide(shard, ctx, pv, S, RAW)

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        for k, v in enumerate(sp["vtypes"]):
            v["num"] = 2 if k == 0 else 1
        data = M.build(sp)
        small = shard["small"] and len(feats) > 2
        dims = M.num_dims(sp)
        pens = [([ld + d for d in range(dims)], tw, di) for ld, tw, di in PENS]
        evs = [pv.CostEvaluator(*pen) for pen in pens]
        oracles = [Oracle(sp, pen) for pen in pens]
        state = RAW.Solution(data)
        empty = {
            pv.Activity(a): []
            for a in [f"C{i}" for i in range(len(sp["clients"]))]
            + [f"L{i}" for i in range(len(sp["ships"]))]
        }
        everything = [
            f"C{i}" for i in range(len(sp["clients"]))
        ] + [f"{x}{i}" for i in range(len(sp["ships"])) for x in "LU"]
        seeds = type_orders(pv, RAW, data, empty, not small)

        spaces = {}
        for item, _ in unplanned(sp, []):
            others = [a for a in everything if a not in item]
            hoods = [
                sub
                for num in range(len(others) + 1)
                for sub in itertools.combinations(others, num)
            ]
            if small:
                hoods = [(), tuple(others[-1:]), tuple(others)]
            for hood, seed in itertools.product(dict.fromkeys(hoods), seeds):
                mine = dict(empty)
                mine[pv.Activity(item[0])] = [pv.Activity(a) for a in hood]
                space = RAW.SearchSpace(data, mine)
                space.shuffle(pv.RandomNumberGenerator(seed=seed))
                spaces.setdefault(item[0], []).append((hood, seed, space))

        for routes in F.solutions(
            sp, max_reload=1, max_len=4 if not sp["ships"] else 6,
        ):
            ctx.states += 1
            sol = F.real_solution(pv, data, routes)
            state.load(sol)
            before = per_vehicle(state)
            for item, prize in unplanned(sp, before):
                for hood, seed, space in spaces[item[0]]:
                    for which, required in itertools.product(
                        range(2), (True, False)
                    ):
                        if small and (which + required + len(hood)) % 2:
                            continue

                        def case():
                            return dict(
                                spec=sp, routes=routes, insert=item,
                                neighbours=hood, seed=seed, pen=pens[which],
                                required=required,
                            )

                        attempt(
                            ctx, pv, state, sol, before, item, space,
                            evs[which], oracles[which], required, hood, prize,
                            case,
                        )
        ctx.sample(dict(spec=sp, start=routes))


def run_wide(shard, ctx, pv, S, RAW):
    sp = W.make(shard["wide"])
    W.fleet(sp)
    data = M.build(sp)
    dims = M.num_dims(sp)
    pens = [([ld + d for d in range(dims)], tw, di) for ld, tw, di in PENS]
    evs = [pv.CostEvaluator(*pen) for pen in pens]
    oracles = [Oracle(sp, pen) for pen in pens]
    state = RAW.Solution(data)
    hood = S.compute_neighbours(data)
    spaces = []
    for seed in (1, 2, 5):
        space = RAW.SearchSpace(data, hood)
        space.shuffle(pv.RandomNumberGenerator(seed=seed))
        spaces.append((seed, space))
    for deal in (dict(size=4, skip=5), dict(size=6, skip=3, reload=True),
                 dict(size=20, skip=7)):
        gone = {f"{x}{i}" for x in "LU" for i in (0, 3, 5)}
        routes = [
            (k, [a for a in acts if a not in gone])
            for k, acts in W.deal(sp, **deal)
        ]
        routes = [(k, acts) for k, acts in routes if acts]
        sol = F.real_solution(pv, data, routes)
        state.load(sol)
        before = per_vehicle(state)
        for item, prize in unplanned(sp, before):
            ctx.states += 1
            near = [str(a) for a in hood[pv.Activity(item[0])]]
            for (seed, space), which, required in itertools.product(
                spaces, range(2), (True, False)
            ):

                def case():
                    return dict(
                        wide=shard["wide"], deal=deal, insert=item, seed=seed,
                        pen=pens[which], required=required,
                    )

                attempt(
                    ctx, pv, state, sol, before, item, space, evs[which],
                    oracles[which], required, near, prize, case,
                )
    ctx.sample(dict(wide=shard["wide"], deal=deal))
