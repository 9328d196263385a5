"""C06: search routes stay consistent under any sequence of edits."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W

ID = "C06"
RULE = (
    "(a) every sequence of <= 3 (thorough: 4) edits (insert, remove, swap, "
    "clear; on two routes of different vehicle types, over clients, shipment "
    "nodes and reload depots, including rejected insertions), updating after "
    "every edit or only at the end, on every instance with <= 1 feature, and "
    "<= 5 (thorough: 6) edits over a reduced alphabet; every node position "
    "and statistic and every prefix/suffix/between segment compared to a "
    "freshly built route and to the reference model; (b) every ordered pair "
    "of solutions loaded in succession, with and without edits in between; "
    "(c) every edit (and, plainly, pair of edits of a reduced alphabet) of "
    "routes with 13 and 9 visits on 5 and 2 trips, on 14 instances with 3 "
    "profiles, load dimensions and depots"
)
ASSUMPTIONS = [
    "two routes; at most 5 distinct nodes and 3 reload depots, except in (c)"
]
HANG = 400

NODES = ["C0", "C1", "C2", "L0", "U0"]
SMALL = ["C0", "C1"]


def shards(tier):
    out = []
    deep = 3 if tier == "quick" else 4
    for feats in F.subsets(1):
        feats = dict(feats)
        for mode in ("each", "end"):
            out.append(
                dict(part="edit", feats=feats, mode=mode, depth=deep,
                     nodes=NODES, both=True)
            )
    deep = 5 if tier == "quick" else 6
    for feats in (
        {}, dict(rel="tw", dserv="some"), dict(ctw="mid", dtw="open"),
        dict(cap="tight", init="some"),
    ):
        for mode in ("each", "end"):
            for first in range(3):
                out.append(
                    dict(part="edit", feats=dict(feats, reload="many"),
                         mode=mode, depth=deep, nodes=SMALL, both=False,
                         first=first)
                )
    for name in W.FEATS:
        for mode in ("each", "end"):
            out.append(dict(part="edit", wide=name, mode=mode, depth=1,
                            nodes=None, both=True))
    for mode in ("each", "end"):
        for first in range(3):
            out.append(dict(part="edit", wide="all", mode=mode, depth=2,
                            nodes=["C4", "C14"], both=False, first=first))
    pairs = 1 if tier == "quick" else 2
    for kw in (dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2)):
        for feats in F.subsets(pairs):
            out.append(dict(part="load", kw=kw, feats=feats))
    return out


def BIG_FIRST(shard):
    return shard.get("depth", 0) * 10 + shard.get("both", 0)


def run(shard, ctx):
    if shard["part"] == "edit":
        return Edits(shard, ctx).run()
    return loads(shard, ctx)


class Edits:
    def __init__(self, shard, ctx):
        import pyvrp as pv
        from pyvrp.search import _search as RAW

        self.pv, self.RAW = pv, RAW
        self.shard, self.ctx = shard, ctx
        self.start = ((), ())
        self.depots = ("D0", "D1")
        if "wide" in shard:
            self.sp = W.make(shard["wide"], nc=16, ns=3, nv=2, nd=3)
            self.start = (
                ("C0", "C5", "L0", "C3", "U0", "D1", "C4", "D2", "L1", "U1",
                 "C9", "D1", "D1", "C10", "C11", "C1", "C15"),
                ("C2", "L2", "C6", "U2", "C7", "D2", "C8", "C12", "C13"),
            )
            self.depots = ("D1", "D2")
        else:
            self.sp = F.make(shard["feats"], nc=3, ns=1, nv=2)
            if "reload" not in shard["feats"]:
                self.sp["vtypes"][0].update(reload=[0, 1], maxre=1)
        self.data = M.build(self.sp)
        self.names = shard["nodes"]
        every = sorted({a for r in self.start for a in r if a[0] != "D"})
        if self.names is None:
            self.names = [*every, "C14"]
        self.nodes = sorted({*every, *self.names})
        self.limit = [M.max_trips(v) - 1 for v in self.sp["vtypes"]]
        self.fresh = {}

    def run(self):
        self.path = []
        self.dfs(self.start, self.shard["depth"])
        self.ctx.sample(dict(spec=self.sp, example=self.last))

    # -- the model: a pair of tuples of activities

    def options(self, state):
        placed = {a for r in state for a in r}
        sides = (0, 1) if self.shard["both"] else (0,)
        for r in sides:
            for pos in range(len(state[r]) + 1):
                for name in self.names:
                    if name not in placed:
                        yield ("insert", r, pos, name)
                for dep in self.depots:
                    yield ("insert", r, pos, dep)
            for pos in range(len(state[r])):
                yield ("remove", r, pos)
            if state[r]:
                yield ("clear", r)
        for a, b in itertools.combinations(self.names, 2):
            if a in placed or b in placed:
                yield ("swap", a, b)

    def step(self, state, op):
        new = [list(r) for r in state]
        if op[0] == "insert":
            _, r, pos, name = op
            if name[0] == "D":
                have = sum(a[0] == "D" for a in new[r])
                if have + 1 > self.limit[r]:
                    return None
            new[r].insert(pos, name)
        elif op[0] == "remove":
            del new[op[1]][op[2]]
        elif op[0] == "clear":
            new[op[1]] = []
        else:
            _, a, b = op
            trans = {a: b, b: a}
            new = [[trans.get(x, x) for x in r] for r in new]
        return tuple(tuple(r) for r in new)

    def dfs(self, state, depth):
        if depth == 0:
            return
        opts = list(self.options(state))
        if "first" in self.shard and not self.path:
            opts = opts[self.shard["first"]::3]
        for op in opts:
            self.path.append(op)
            new = self.step(state, op)
            self.ctx.transitions += 1
            self.replay()
            if new is not None:
                self.dfs(new, depth - 1)
            self.path.pop()

    # -- the real code

    def make(self):
        return [self.RAW.Route(self.data, vehicle_type=k) for k in (0, 1)]

    def replay(self):
        ctx = self.ctx
        ctx.states += 1
        ctx.traces += 1
        routes = self.make()
        nodes = {n: self.RAW.Node(n) for n in self.nodes}
        depots = {d: self.RAW.Node(d) for d in self.depots}
        state = self.start
        for route, acts in zip(routes, state):
            for a in acts:
                route.append(nodes[a] if a in nodes else depots[a])
            if acts:
                route.update()
        each = self.shard["mode"] == "each"

        def case():
            return dict(spec=self.sp, start=self.start,
                        edits=list(self.path),
                        mode=self.shard["mode"])

        self.last = list(self.path)
        for op in self.path:
            new = self.step(state, op)
            try:
                if op[0] == "insert":
                    node = nodes.get(op[3]) or depots[op[3]]
                    if op[2] == len(state[op[1]]):
                        routes[op[1]].append(node)
                    else:
                        routes[op[1]].insert(op[2] + 1, node)
                elif op[0] == "remove":
                    del routes[op[1]][op[2] + 1]
                elif op[0] == "clear":
                    routes[op[1]].clear()
                else:
                    self.RAW.Route.swap(nodes[op[1]], nodes[op[2]])
                ok = True
            except ValueError:
                ok = False
            if ok != (new is not None):
                ctx.fail(case(), f"edit {op} accepted={ok}")
                return
            if new is not None:
                state = new
            if each:
                for route in routes:
                    route.update()

        # Positions, trips and membership need no update.
        for r, acts in enumerate(state):
            trip = 0
            full = list(routes[r])
            v = self.sp["vtypes"][r]
            want = [f"D{v['start']}", *acts, f"D{v['end']}"]
            if [str(n.activity) for n in full] != want:
                ctx.fail(case(), f"route {r} is {full}, want {want}")
                return
            for pos, node in enumerate(full):
                if node.is_depot() and pos > 0:
                    trip += 1
                flags = (
                    node.is_start_depot(), node.is_end_depot(),
                    node.is_reload_depot(),
                )
                kind = (
                    pos == 0, pos == len(full) - 1,
                    0 < pos < len(full) - 1 and node.is_depot(),
                )
                if (
                    node.pos != pos
                    or node.trip != trip
                    or node.route is not routes[r]
                    or flags != kind
                ):
                    ctx.fail(
                        case(),
                        f"route {r} node {pos}: pos={node.pos} "
                        f"trip={node.trip} (want {trip}) flags={flags}",
                    )
        placed = {a for acts in state for a in acts}
        for name, node in nodes.items():
            if name not in placed and node.route is not None:
                ctx.fail(case(), f"{name} still has a route")

        for r, acts in enumerate(state):
            routes[r].update()
            got = self.observe(routes[r])
            key = (r, acts)
            if key not in self.fresh:
                self.fresh[key] = self.expected(r, acts, case)
            if got != self.fresh[key]:
                diff = [
                    (k, got[k], self.fresh[key][k])
                    for k in got
                    if got[k] != self.fresh[key].get(k)
                ]
                ctx.fail(case(), f"(what, got, fresh): {diff[:3]}")

    def observe(self, route):
        dims = M.num_dims(self.sp)
        prof = self.sp["vtypes"][route.vehicle_type]["prof"]
        out = dict(
            clients=route.num_clients(), ships=route.num_shipments(),
            pickups=route.num_pickups(), depots=route.num_depots(),
            trips=route.num_trips(), feas=route.is_feasible(),
            hl=route.has_excess_load(), hd=route.has_excess_distance(),
            ht=route.has_time_warp(), load=route.load(),
            excess_load=route.excess_load(), exd=route.excess_distance(),
            distance=route.distance(), dc=route.distance_cost(),
            duration=route.duration(), ot=route.overtime(),
            duc=route.duration_cost(), tw=route.time_warp(),
            size=len(route),
        )
        num = len(route)
        trips = [n.trip for n in route]
        deps = [n.is_depot() for n in route]
        for i in range(num):
            out["db", i] = route.dist_before(i)
            out["da", i] = route.dist_after(i)
            out["tb", i] = dur(route.duration_before(i))
            out["ta", i] = dur(route.duration_after(i))
            for d in range(dims):
                out["lb", i, d] = load(route.load_before(i, d))
                out["la", i, d] = load(route.load_after(i, d))
            for j in range(i, num):
                if trips[j] - trips[i] > deps[j]:
                    continue
                for p in range(len(self.sp["dist"])):
                    out["dd", i, j, p] = route.dist_between(i, j, p)
                    out["dt", i, j, p] = dur(route.duration_between(i, j, p))
                for d in range(dims):
                    out["dl", i, j, d] = load(route.load_between(i, j, d))
        return out

    def expected(self, r, acts, case):
        """Observation of a fresh route, itself checked against the model."""
        route = self.RAW.Route(self.data, vehicle_type=r)
        keep = [self.RAW.Node(a) for a in acts]
        for node in keep:
            route.append(node)
        route.update()
        got = self.observe(route)
        ctx, sp = self.ctx, self.sp
        v = sp["vtypes"][r]
        full = [f"D{v['start']}", *acts, f"D{v['end']}"]
        locs = [M.where(sp, a) for a in full]
        legs = lambda mat, i, j: sum(
            mat[locs[k]][locs[k + 1]] for k in range(i, j)
        )
        mats = sp["dist"]
        for i in range(len(full)):
            ctx.equal(got["db", i], legs(mats[v["prof"]], 0, i), case,
                      f"dist before {i}")
            ctx.equal(
                got["da", i], legs(mats[v["prof"]], i, len(full) - 1), case,
                f"dist after {i}",
            )
            for j in range(i, len(full)):
                for p in range(len(self.sp["dist"])):
                    if ("dd", i, j, p) in got:
                        ctx.equal(got["dd", i, j, p], legs(mats[p], i, j),
                                  case, f"dist between {i}, {j}")
        if M.legal_route(sp, r, list(acts)):
            want = M.evaluate(sp, r, list(acts))
            for name, key in (
                ("excess_load", "excess_load"), ("exd", "excess_distance"),
                ("distance", "distance"), ("dc", "distance_cost"),
                ("duration", "duration"), ("ot", "overtime"),
                ("duc", "duration_cost"), ("tw", "time_warp"),
            ):
                ctx.equal(got[name], want[key], case, f"{name} of {full}")
            self.compose(route, full, locs, v, want, case)
        return got

    def compose(self, route, full, locs, v, want, case):
        """Splitting within a trip and merging the parts gives the whole."""
        from pyvrp import _pyvrp as CORE

        sp, ctx = self.sp, self.ctx
        mat = sp["dur"][v["prof"]]
        maxdur = min(v["shift"] + v["ot"], M.INT_MAX)
        num = len(full)
        inner = [a[0] != "D" for a in full]
        inner[0] = inner[-1] = True
        trip = [n.trip for n in route]
        for i in range(num - 1):
            if not (inner[i] and inner[i + 1]):
                continue
            seg = CORE.DurationSegment.merge(
                mat[locs[i]][locs[i + 1]], route.duration_before(i),
                route.duration_after(i + 1),
            )
            ctx.equal(seg.duration(), want["duration"], case, f"split {i}")
            ctx.equal(seg.time_warp(maxdur), want["time_warp"], case,
                      f"split {i}")
            for d in range(M.num_dims(sp)):
                cap = M.get(v["cap"], d)
                ld = CORE.LoadSegment.merge(
                    route.load_before(i, d), route.load_after(i + 1, d)
                )
                ctx.equal(ld.excess_load(cap), want["excess_load"][d], case,
                          f"load split {i}")
            for j in range(i + 1, num - 1):
                if not (inner[j] and inner[j + 1]) or trip[j] != trip[i + 1]:
                    continue
                if not all(inner[i:j + 2]):
                    continue
                mid = CORE.DurationSegment.merge(
                    mat[locs[i]][locs[i + 1]], route.duration_before(i),
                    route.duration_between(i + 1, j, v["prof"]),
                )
                seg = CORE.DurationSegment.merge(
                    mat[locs[j]][locs[j + 1]], mid,
                    route.duration_after(j + 1),
                )
                ctx.equal(seg.duration(), want["duration"], case,
                          f"split {i} {j}")
                ctx.equal(seg.time_warp(maxdur), want["time_warp"], case,
                          f"split {i} {j}")
                for d in range(M.num_dims(sp)):
                    cap = M.get(v["cap"], d)
                    ld = CORE.LoadSegment.merge(
                        CORE.LoadSegment.merge(
                            route.load_before(i, d),
                            route.load_between(i + 1, j, d),
                        ),
                        route.load_after(j + 1, d),
                    )
                    ctx.equal(ld.excess_load(cap), want["excess_load"][d],
                              case, f"load split {i} {j}")


def dur(seg):
    return (
        seg.duration(), seg.time_warp(), seg.start_early(), seg.start_late(),
        seg.release_time(), seg.end_early(), seg.prev_end_late(),
    )


def load(seg):
    return (seg.initial(), seg.delta(), seg.increase(), seg.load(),
            seg.excess_load(3))


def loads(shard, ctx):
    """Every ordered pair of solutions, loaded one after the other."""
    import pyvrp as pv
    from pyvrp.search import _search as RAW

    sp = F.make(shard["feats"], **shard["kw"])
    for k, v in enumerate(sp["vtypes"]):
        v["num"] = 2 - k
    data = M.build(sp)
    sols, seen = [], {}
    for routes in F.solutions(sp, max_reload=1, max_routes=2, max_len=3):
        # Keep all shapes: one representative per (types, trip lengths).
        shape = tuple(
            (k, tuple("D" if a[0] == "D" else "x" for a in acts))
            for k, acts in routes
        )
        seen[shape] = seen.get(shape, 0) + 1
        if seen[shape] <= 2:
            sols.append(routes)
    real = [F.real_solution(pv, data, r) for r in sols]
    fresh = []
    for sol in real:
        state = RAW.Solution(data)
        state.load(sol)
        fresh.append(snapshot(state))

    for mode in ("plain", "clear", "remove"):
        state = RAW.Solution(data)
        for i, j in itertools.product(range(len(real)), repeat=2):
            if mode == "clear" and (i + j) % 3:
                continue
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1

            def case():
                return dict(spec=sp, first=sols[i], second=sols[j], mode=mode)

            state.load(real[i])
            if mode == "clear":
                for route in state.routes:
                    route.clear()
            if mode == "remove":
                for route in state.routes:
                    if len(route) > 2:
                        del route[1]
                        route.update()
            state.load(real[j])
            ctx.equal(snapshot(state), fresh[j], case, "state after load")
            back = state.unload()
            ctx.check(back == real[j], case, f"unloaded {F.as_lists(back)}")
            ctx.equal(
                sorted(F.as_lists(back)), sorted(F.as_lists(real[j])), case,
                "unloaded routes",
            )
    for k, snap in enumerate(fresh):
        costs = {}
        for route in snap[0]:
            if len(route[1]) > 2:
                acts = list(route[1][1:-1])
                want = M.evaluate(sp, route[0], acts)
                got = dict(route[2])
                for key in got:
                    ctx.equal(got[key], want[key],
                              dict(spec=sp, routes=sols[k]), key)
    ctx.sample(dict(spec=sp, solutions=len(sols)))


def snapshot(state):
    routes = []
    for route in state.routes:
        routes.append(
            (
                route.vehicle_type,
                tuple(str(n.activity) for n in route),
                tuple(
                    dict(
                        distance=route.distance(),
                        duration=route.duration(),
                        time_warp=route.time_warp(),
                        excess_load=route.excess_load(),
                        distance_cost=route.distance_cost(),
                        duration_cost=route.duration_cost(),
                    ).items()
                ),
                tuple((n.pos, n.trip, n.route is route) for n in route),
            )
        )
    nodes = [
        (str(n.activity), n.route is None, n.pos, n.trip)
        for n in (
            *state.clients,
            *(x for pair in state.shipments for x in pair),
        )
    ]
    return routes, nodes
