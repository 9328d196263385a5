"""C03: solutions account exactly for their routes and reject illegal ones."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W

ID = "C03"
RULE = (
    "(a) every activity sequence of length <= 4 (thorough: 5) over an "
    "alphabet with unknown, repeated and unpaired activities, per trip limit; "
    "(b) every list of <= 3 (thorough: 4) routes from a pool with empty, "
    "overlapping and group-conflicting routes over two vehicle types; (c) "
    "every legal solution (all partial assignments, orders, reloads) of every "
    "instance with <= 2 (thorough: 3) interacting features; (d) 14 wide "
    "instances (70 clients, 6 shipments, 3 vehicle types, up to 40 routes) "
    "with solutions of every size, and each of their illegal extensions; "
    "acceptance and every accessor of the real objects are compared to the "
    "reference model"
)
ASSUMPTIONS = [
    "all solutions: at most 3 clients, 2 shipments, 4 vehicles of 2 types; "
    "a structured choice of larger ones",
]

ALPHABET = ["C0", "C1", "C7", "D0", "D1", "D5", "L0", "U0", "L1", "U1", "L3",
            "U2"]
TRIPS = [
    dict(reload=[], maxre=None),
    dict(reload=[], maxre=2),
    dict(reload=[1], maxre=0),
    dict(reload=[0, 1], maxre=1),
    dict(reload=[1], maxre=None),
]


def shards(tier):
    out = []
    length = 4 if tier == "quick" else 5
    for k in range(len(TRIPS)):
        for first in ALPHABET:
            out.append(
                dict(kind="seq", trips=k, first=first, length=length)
            )
    for conf in range(len(CONFS)):
        for first in range(len(POOL)):
            out.append(
                dict(kind="list", conf=conf, first=first,
                     num=3 if tier == "quick" else 4)
            )
    order = 2 if tier == "quick" else 3
    for kw in (
        dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2), dict(nc=0, ns=2, nv=1)
    ):
        for chunk in F.chunks(list(F.subsets(order)), 64):
            out.append(dict(kind="sum", kw=kw, feats=chunk))
    for name in W.FEATS:
        for size in (1, 3, 7):
            out.append(dict(kind="wide", feat=name, size=size))
    return out


# (b): routes by (type, activities)
POOL = [
    (0, []), (0, ["C0"]), (0, ["C1", "C0"]), (0, ["C2"]), (1, ["C1"]),
    (1, ["C2", "C1"]), (0, ["L0", "U0"]), (1, ["L0", "C2", "U0"]),
    (1, ["C0", "D1"]), (1, ["D1"]), (0, ["C0", "C0"]),
    (1, ["C2", "D0", "C2"]),
]
CONFS = [
    dict(nums=(1, 1), group=None),
    dict(nums=(2, 1), group=None),
    dict(nums=(1, 3), group=[0, 1]),
    dict(nums=(3, 1), group=[1, 2]),
    dict(nums=(3, 3), group=[0, 1, 2]),
]


def run(shard, ctx):
    globals()[f"run_{shard['kind']}"](shard, ctx)


def known(sp, acts):
    size = dict(C=len(sp["clients"]), D=len(sp["depots"]), L=len(sp["ships"]),
                U=len(sp["ships"]))
    return all(int(a[1:]) < size[a[0]] for a in acts)


def run_seq(shard, ctx):
    import pyvrp as pv

    sp = F.base(nc=2, ns=2)
    sp["vtypes"][0].update(TRIPS[shard["trips"]])
    data = M.build(sp)
    acts_of = {a: pv.Activity(a) for a in ALPHABET}
    for length in range(shard["length"]):
        for rest in itertools.product(ALPHABET, repeat=length):
            acts = [shard["first"], *rest]
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            want = known(sp, acts) and M.legal_route(sp, 0, acts)
            try:
                pv.Route(data, [acts_of[a] for a in acts], 0)
                got = True
            except (ValueError, RuntimeError, IndexError):
                got = False
            if got != want:
                ctx.fail(dict(spec=sp, route=acts),
                         f"accepted={got}, legal={want}")
            ctx.count("accepted", got)
    ctx.sample(dict(route=acts))


def run_list(shard, ctx):
    import pyvrp as pv

    conf = CONFS[shard["conf"]]
    sp = F.base(nc=3, ns=1, nv=2)
    for v, num in zip(sp["vtypes"], conf["nums"]):
        v.update(num=num, reload=[0, 1], maxre=1)
    sp["clients"][2]["req"] = False
    if conf["group"]:
        sp["groups"] = [dict(clients=conf["group"], req=True)]
        for c in conf["group"]:
            sp["clients"][c].update(g=0, req=False)
    data = M.build(sp)
    pool = [F.real_route(pv, data, *r) for r in POOL]
    for length in range(shard["num"]):
        for rest in itertools.product(range(len(POOL)), repeat=length):
            which = [shard["first"], *rest]
            routes = [POOL[k] for k in which]
            ctx.states += 1
            ctx.transitions += 1
            want = M.legal_solution(sp, routes)
            try:
                sol = pv.Solution(data, [pool[k] for k in which])
                got = True
            except (ValueError, RuntimeError):
                got = False
            if got != want:
                ctx.fail(dict(spec=sp, routes=routes),
                         f"accepted={got}, legal={want}")
            if got:
                ctx.count("accepted")
                compare(ctx, pv, sp, routes, sol, {})
    ctx.sample(dict(routes=routes))


def compare(ctx, pv, sp, routes, sol, cache):
    ctx.traces += 1
    stats = []
    for k, acts in routes:
        key = (k, tuple(acts))
        if key not in cache:
            cache[key] = M.evaluate(sp, k, acts)
        stats.append(cache[key])

    def total(key):
        return sum(s[key] for s in stats)

    dims = M.num_dims(sp)
    have = {a for _, acts in routes for a in acts}
    unplanned = [
        f"C{i}" for i in range(len(sp["clients"])) if f"C{i}" not in have
    ]
    for i in range(len(sp["ships"])):
        if f"L{i}" not in have:
            unplanned += [f"L{i}", f"U{i}"]
    miss = M.missing(sp, routes)
    excess = [sum(s["excess_load"][d] for s in stats) for d in range(dims)]
    feas = not any(miss) and all(M.route_feasible(s) for s in stats)
    pairs = dict(
        routes=(F.as_lists(sol), [(k, list(a)) for k, a in routes]),
        unplanned=(sorted(map(str, sol.unplanned())), sorted(unplanned)),
        excess_load=(sol.excess_load(), excess),
        has_excess_load=(sol.has_excess_load(), any(excess)),
        distance=(sol.distance(), total("distance")),
        distance_cost=(sol.distance_cost(), total("distance_cost")),
        duration=(sol.duration(), total("duration")),
        overtime=(sol.overtime(), total("overtime")),
        duration_cost=(sol.duration_cost(), total("duration_cost")),
        excess_distance=(sol.excess_distance(), total("excess_distance")),
        has_exc_dist=(
            sol.has_excess_distance(), total("excess_distance") > 0
        ),
        time_warp=(sol.time_warp(), total("time_warp")),
        has_tw=(sol.has_time_warp(), total("time_warp") > 0),
        fixed=(sol.fixed_vehicle_cost(), total("fixed")),
        prizes=(sol.prizes(), total("prizes")),
        uncollected=(
            sol.uncollected_prizes(), M.total_prizes(sp) - total("prizes")
        ),
        missing=(
            (
                sol.num_missing_clients(), sol.num_missing_groups(),
                sol.num_missing_shipments(),
            ),
            miss,
        ),
        complete=(sol.is_complete(), not any(miss)),
        feasible=(sol.is_feasible(), feas),
        num_routes=(sol.num_routes(), len(routes)),
        num_trips=(
            sol.num_trips(),
            sum(1 + sum(a[0] == "D" for a in acts) for _, acts in routes),
        ),
        num_clients=(sol.num_clients(), sum(a[0] == "C" for a in have)),
        num_ships=(sol.num_shipments(), sum(a[0] == "L" for a in have)),
    )
    for key, (got, want) in pairs.items():
        if got != want:
            ctx.fail(dict(spec=sp, routes=routes),
                     f"{key}: got {got!r}, want {want!r}")


def run_sum(shard, ctx):
    import pyvrp as pv

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        for v in sp["vtypes"]:
            v["num"] = 1 if len(sp["vtypes"]) > 1 else 2
        data = M.build(sp)
        cache = {}
        real = {}
        for routes in F.solutions(sp, max_reload=0 if sp["ships"] else 1,
                                  max_len=4):
            ctx.states += 1
            ctx.transitions += 1
            rs = []
            for k, acts in routes:
                key = (k, tuple(acts))
                if key not in real:
                    real[key] = F.real_route(pv, data, k, acts)
                rs.append(real[key])
            compare(ctx, pv, sp, routes, pv.Solution(data, rs), cache)
            if all(k == 0 and a[0] == "C" for k, acts in routes for a in acts):
                # Also through plain lists of client indices.
                idcs = [[int(a[1:]) for a in acts] for _, acts in routes]
                plain = pv.Solution(data, idcs)
                compare(ctx, pv, sp, routes, plain, cache)
            rev = pv.Solution(data, rs[::-1])
            compare(ctx, pv, sp, routes[::-1], rev, cache)
        ctx.sample(dict(spec=sp, routes=routes))


def run_wide(shard, ctx):
    """Solutions of n routes with a few visits each, for every n."""
    import pyvrp as pv

    sp = W.make(shard["feat"])
    for k, v in enumerate(sp["vtypes"]):
        v["num"] = 12 + k
    data = M.build(sp)
    size = shard["size"]
    left = [
        f"C{i}" for i, c in enumerate(sp["clients"])
        # The group's member that may be visited.
        if c["g"] is None or sp["groups"][c["g"]]["clients"][c["g"] % 3] == i
    ]
    ships = list(range(len(sp["ships"])))
    routes, cache, real = [], {}, []
    for num in range(39):
        vt = num % 3
        acts, left = left[:size], left[size:]
        if num % 4 == 1 and ships:
            k = ships.pop(0)
            acts = [f"L{k}", *acts, f"U{k}"]
        if num % 5 == 2:
            acts = [*acts, f"D{sp['vtypes'][vt]['reload'][0]}", *left[:1]]
            left = left[1:]
        if not any(a[0] in "CL" for a in acts):
            break
        ctx.states += 1
        ctx.transitions += 1
        routes = [*routes, (vt, acts)]
        real.append(F.real_route(pv, data, vt, acts))
        ok = M.legal_solution(sp, routes)
        try:
            sol = pv.Solution(data, real)
        except (ValueError, RuntimeError):
            sol = None
        ctx.equal(sol is not None, ok, lambda: dict(spec=sp, routes=routes),
                  "accepted")
        if not ok or sol is None:
            break
        compare(ctx, pv, sp, routes, sol, cache)
        compare(ctx, pv, sp, routes[::-1], pv.Solution(data, real[::-1]),
                cache)
        # One more route that repeats a visit or conflicts with a group.
        for i in range(len(sp["clients"])):
            more = [*routes, ((num + 1) % 3, [f"C{i}"])]
            want = M.legal_solution(sp, more)
            extra = F.real_route(pv, data, *more[-1])
            ctx.transitions += 1
            try:
                pv.Solution(data, [*real, extra])
                got = True
            except (ValueError, RuntimeError):
                got = False
            ctx.equal(got, want, lambda: dict(spec=sp, routes=more),
                      "accepted")
    ctx.sample(dict(spec=shard["feat"], routes=routes))
