"""C29: the search space's marks, orders and neighbourhoods."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W

ID = "C29"
RULE = (
    "instances with up to 4 clients and 3 shipments: every state of the marks "
    "(all subsets of visits, reached by marking them) x every operation "
    "(marking each activity, marking each node of each solution in a "
    "structured set that covers every pair of adjacent activities, marking "
    "all, unmarking all, shuffling, setting neighbours), after which all "
    "marks, orders and neighbourhoods are compared to a set model; all "
    "sequences of <= 4 (thorough: 5) operations; all orders reachable by "
    "shuffling for <= 4 visits; every malformed neighbourhood of a small "
    "instance; and single and pairwise marks on wide instances (70 clients, 6 "
    "shipments, 130 clients)"
)
ASSUMPTIONS = [
    "nodes that are marked are in a route, and activities marked are clients "
    "or shipment activities of the instance, as documented",
]
SIZES = [(0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (3, 1), (2, 2),
         (4, 0), (0, 3), (4, 3)]


def shards(tier):
    out = []
    for nc, ns in SIZES:
        out.append(dict(kind="marks", nc=nc, ns=ns))
        out.append(dict(kind="hoods", nc=nc, ns=ns))
        if nc + ns <= 3:
            out.append(dict(kind="words", nc=nc, ns=ns,
                            depth=4 if tier == "quick" else 5))
        if nc + ns <= 4:
            for nv in (1, 2, 3):
                out.append(dict(kind="orders", nc=nc, ns=ns, nv=nv))
    for nc, ns in ((70, 6), (130, 0), (63, 1), (64, 1), (1, 6), (60, 6),
                   (40, 40), (2, 70)):
        out.append(dict(kind="wide", nc=nc, ns=ns,
                        far=1 if tier == "quick" else 0))
    return out


def spec_of(nc, ns, nv=2):
    if nc > 4 or ns > 3:
        return W.base(nc=nc, ns=ns, nv=nv)
    sp = F.base(nc=nc, ns=ns, nv=nv)
    for k, v in enumerate(sp["vtypes"]):
        v.update(num=1 + k, reload=[0], maxreload=3)
    return sp


def names(sp):
    return [f"C{i}" for i in range(len(sp["clients"]))] + [
        f"L{i}" for i in range(len(sp["ships"]))
    ]


def all_names(sp):
    return names(sp) + [f"U{i}" for i in range(len(sp["ships"]))]


def visit_of(name):
    return name.replace("U", "L")


class World:
    """A real search space next to its model."""

    def __init__(self, ctx, pv, RAW, sp, data, case):
        self.ctx, self.pv, self.sp, self.case = ctx, pv, sp, case
        self.acts = {a: pv.Activity(a) for a in all_names(sp)}
        self.hood = {
            a: [b for b in all_names(sp) if visit_of(b) != a]
            for a in names(sp)
        }
        self.space = RAW.SearchSpace(data, self.real_hood(self.hood))
        self.marks = set()
        self.order = names(sp)
        self.types = []
        offset = 0
        for k, v in enumerate(sp["vtypes"]):
            self.types.append((k, offset))
            offset += v["num"]
        self.any_order = False

    def real_hood(self, hood):
        return {
            self.pv.Activity(k): [self.pv.Activity(b) for b in near]
            for k, near in hood.items()
        }

    def mark(self, name):
        self.space.mark_promising(self.acts[name])
        self.marks.add(visit_of(name))

    def mark_node(self, node, route, pos):
        """route is the list of names, including the depots."""
        self.space.mark_promising(node)
        for k in (pos - 1, pos, pos + 1):
            if 0 <= k < len(route) and route[k][0] != "D":
                self.marks.add(visit_of(route[k]))

    def all(self):
        self.space.mark_all_promising()
        self.marks = set(names(self.sp))

    def none(self):
        self.space.unmark_all_promising()
        self.marks = set()

    def shuffle(self, rng):
        if isinstance(rng, int):
            rng = self.pv.RandomNumberGenerator(seed=rng)
        self.space.shuffle(rng)
        self.any_order = True

    def reverse_hood(self):
        self.hood = {a: near[::-1] for a, near in self.hood.items()}
        self.space.neighbours = self.real_hood(self.hood)

    def compare(self, what):
        ctx = self.ctx
        ctx.transitions += 1
        got = {
            name for name, a in self.acts.items() if self.space.is_promising(a)
        }
        want = {name for name in self.acts if visit_of(name) in self.marks}
        if got != want:
            ctx.fail((self.case, what), f"marked {got}, want {want}")
        order = [str(a) for a in self.space.activity_order()]
        types = [tuple(t) for t in self.space.veh_type_order()]
        if self.any_order:
            if sorted(order) != sorted(self.order):
                ctx.fail((self.case, what), f"order {order}")
            if sorted(types) != sorted(self.types):
                ctx.fail((self.case, what), f"types {types}")
            self.order, self.types, self.any_order = order, types, False
        elif order != self.order or types != self.types:
            ctx.fail((self.case, what), f"order changed: {order} {types}")

    def compare_hood(self, what):
        got = {
            str(k): [str(a) for a in near]
            for k, near in self.space.neighbours.items()
        }
        if got != self.hood:
            self.ctx.fail((self.case, what), f"neighbours {got}")
        for name, near in self.hood.items():
            got = [str(a) for a in self.space.neighbours_of(self.acts[name])]
            if got != near:
                self.ctx.fail((self.case, what), f"of {name}: {got}")


def node_states(pv, RAW, sp, data):
    """Routes that together have all pairs of adjacent activities."""
    visits = names(sp)
    seqs = []
    for rot in range(len(visits)):
        items = visits[rot:] + visits[:rot]
        plain = [x for a in items
                 for x in ([a, "U" + a[1:]] if a[0] == "L" else [a])]
        seqs.append(plain)
        late = [a for a in items] + [
            "U" + a[1:] for a in items[::-1] if a[0] == "L"
        ]
        seqs.append(late)
        spaced = []
        for a in items:
            spaced += ["D0", a] + (["U" + a[1:]] if a[0] == "L" else [])
        seqs.append(spaced[1:])
        seqs.append(spaced[1:3] if len(spaced) > 2 else spaced[1:])
    out = []
    for seq in seqs:
        route = RAW.Route(data, 0)
        ok = 1 + sum(a == "D0" for a in seq) <= route.max_trips()
        if not ok:
            continue
        nodes = [RAW.Node(pv.Activity(a)) for a in seq]
        for node in nodes:
            route.append(node)
        route.update()
        full = ["D", *seq, "D"]
        out.append((route, nodes, full))
    return out


def run(shard, ctx):
    import pyvrp as pv
    from pyvrp.search import _search as RAW

    sp = spec_of(shard["nc"], shard["ns"], shard.get("nv", 2))
    data = M.build(sp)

    def world(case):
        return World(ctx, pv, RAW, sp, data, case)

    visits = names(sp)
    kind = shard["kind"]
    if kind == "marks":
        states = node_states(pv, RAW, sp, data)
        subsets = [
            sub for num in range(len(visits) + 1)
            for sub in itertools.combinations(visits, num)
        ]
        for sub in subsets:
            ctx.states += 1
            ops = [("mark", a) for a in all_names(sp)]
            ops += [("all",), ("none",), ("shuffle", 3), ("reverse_hood",)]
            for op in ops:
                ctx.traces += 1
                w = world((shard["nc"], shard["ns"], sub))
                for a in sub:
                    w.mark(a)
                w.compare("marked")
                getattr(w, op[0])(*op[1:])
                w.compare(op)
            for num, (route, _, full) in enumerate(states):
                for pos in range(len(full)):
                    ctx.traces += 1
                    w = world((shard["nc"], shard["ns"], sub))
                    for a in sub:
                        w.mark(a)
                    w.mark_node(route[pos], full, pos)
                    w.compare(("node", full, pos))
        ctx.sample(dict(visits=visits, marked=sub))
    elif kind == "words":
        ops = [("mark", a) for a in all_names(sp)]
        ops += [("all",), ("none",), ("shuffle", 3), ("reverse_hood",)]
        for word in itertools.product(ops, repeat=shard["depth"]):
            ctx.states += 1
            ctx.traces += 1
            w = world((shard["nc"], shard["ns"], word))
            for op in word:
                getattr(w, op[0])(*op[1:])
                w.compare(op)
            w.compare_hood(word)
        ctx.sample(dict(visits=visits, operations=word))
    elif kind == "orders":
        import math

        seen, types = set(), set()
        for seed in range(1, 600):
            w = world(("seed", seed))
            w.compare_hood("new")
            again = world(("seed", seed))
            rngs = [pv.RandomNumberGenerator(seed=seed) for _ in range(2)]
            for k in range(6):
                w.shuffle(rngs[0])
                again.shuffle(rngs[1])
                w.compare("shuffle")
                again.compare("shuffle")
                ctx.traces += 1
                if (w.order, w.types) != (again.order, again.types):
                    ctx.fail(("seed", seed), "order not determined by seed")
                seen.add(tuple(w.order))
                types.add(tuple(w.types))
        ctx.states += len(seen) + len(types)
        ctx.equal(len(seen), math.factorial(len(visits)), shard, "orders")
        ctx.equal(len(types), math.factorial(len(sp["vtypes"])), shard,
                  "vehicle type orders")
        ctx.sample(dict(visits=visits, order=w.order))
    elif kind == "hoods":
        check_hoods(shard, ctx, pv, RAW, sp, data, world)
    else:
        picks = visits
        w = world(shard)
        w.all()
        w.compare("all")
        w.none()
        w.compare("none")
        for a in all_names(sp):
            ctx.states += 1
            ctx.traces += 1
            w.none()
            w.mark(a)
            w.compare(a)
        for k, a in enumerate(picks):
            others = picks if not shard["far"] else [
                picks[k - 1], picks[-1 - k], picks[(k + 64) % len(picks)],
                picks[(k + 8) % len(picks)],
            ]
            for b in others:
                ctx.states += 1
                ctx.traces += 1
                w.none()
                w.mark(a)
                w.mark(b)
                w.compare((a, b))
        for route, _, full in node_states(pv, RAW, sp, data)[:4]:
            for pos in range(len(full)):
                w.none()
                w.mark_node(route[pos], full, pos)
                w.compare(("node", pos))
        ctx.sample(dict(visits=len(visits), last=(a, b)))


def check_hoods(shard, ctx, pv, RAW, sp, data, world):
    """Malformed neighbourhoods are rejected and change nothing."""
    full = {
        a: [b for b in all_names(sp) if visit_of(b) != a] for a in names(sp)
    }
    bad = []
    for a in full:
        less = {k: v for k, v in full.items() if k != a}
        bad.append(less)  # one is missing
        bad.append({**full, a: [a]})  # contains itself
        bad.append({**full, a: [*full[a], a]})
        for wrong in ["D0"] + [f"U{i}" for i in range(len(sp["ships"]))]:
            bad.append({**full, wrong: []})  # one too many
            bad.append({**less, wrong: []})  # the wrong one
            bad.append({wrong: [], **less})
    good = [
        full, {a: [] for a in full}, {a: v[:1] for a, v in full.items()},
        {a: v[::-1] for a, v in full.items()},
    ]
    w = world((shard["nc"], shard["ns"]))
    for hood in good + bad:
        ctx.states += 1
        ctx.traces += 2
        real = w.real_hood(hood)
        valid = hood in good
        for how in ("new", "set"):
            try:
                if how == "new":
                    RAW.SearchSpace(data, real)
                else:
                    w.space.neighbours = real
                    w.hood = hood
                done = True
            except (RuntimeError, ValueError):
                done = False
            if done != valid:
                ctx.fail((shard, hood, how), f"accepted: {done}")
            w.compare(how)
            w.compare_hood(how)
        # Setting the neighbours does not depend on what was passed later.
        for near in real.values():
            near.clear()
        w.compare_hood("changed argument")
    ctx.sample(dict(rejected=str(bad[0]) if bad else ""))
