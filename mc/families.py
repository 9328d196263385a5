"""Bounded families of instances, and enumerators of their routes/solutions.

An instance is a base spec with a set of features switched on. Features in the
same slot are alternatives. `subsets(t)` lists every choice of at most t slots
and one feature of each: the lattice of all feature interactions up to order t.
"""

import copy
import itertools

from mc import model as M

# Deliberately not the identity, so that mixing up client, depot and location
# indices is visible.
DEPOT_LOC = [1, 0, 5]
CLIENT_LOC = [4, 2, 3, 6, 7, 10, 11]
SHIP_LOC = [(8, 6), (7, 9), (2, 8)]


def matrix(num, mul, add, mod, low=1):
    return [
        [
            0 if i == j else (mul * i + add * j + i * j) % mod + low
            for j in range(num)
        ]
        for i in range(num)
    ]


def base(nc=3, nd=2, ns=0, nv=1):
    num = 12
    return M.spec(
        dist=[matrix(num, 3, 5, 7), matrix(num, 5, 2, 9)],
        dur=[matrix(num, 4, 3, 5), matrix(num, 1, 4, 6)],
        depots=[M.depot(DEPOT_LOC[i]) for i in range(nd)],
        clients=[
            M.client(CLIENT_LOC[i], d=[i % 3 + 1], p=[(2 * i + 1) % 4])
            for i in range(nc)
        ],
        ships=[
            M.shipment(*SHIP_LOC[i], amt=[i + 2]) for i in range(ns)
        ],
        vtypes=[M.vtype(num=2, cap=[20]) for _ in range(nv)],
    )


# -- features ---------------------------------------------------------------


def vt(**kwargs):
    """Feature setting vehicle type fields; lists index the types."""

    def apply(sp):
        for k, v in enumerate(sp["vtypes"]):
            for key, vals in kwargs.items():
                v[key] = copy.deepcopy(vals[k % len(vals)])

    return apply


def cl(**kwargs):
    def apply(sp):
        for k, c in enumerate(sp["clients"]):
            for key, vals in kwargs.items():
                c[key] = copy.deepcopy(vals[k % len(vals)])

    return apply


def sh(**kwargs):
    def apply(sp):
        for k, s in enumerate(sp["ships"]):
            for key, vals in kwargs.items():
                s[key] = copy.deepcopy(vals[k % len(vals)])

    return apply


def dp(**kwargs):
    def apply(sp):
        for k, d in enumerate(sp["depots"]):
            for key, vals in kwargs.items():
                d[key] = copy.deepcopy(vals[k % len(vals)])

    return apply


def both(*funcs):
    def apply(sp):
        for f in funcs:
            f(sp)

    return apply


def two_dims(sp):
    for k, c in enumerate(sp["clients"]):
        c["d"] = [c["d"][0], (k + 1) % 3]
        c["p"] = [c["p"][0], 2 - k % 3]
    for k, s in enumerate(sp["ships"]):
        s["amt"] = [s["amt"][0], 1 + k]
    for k, v in enumerate(sp["vtypes"]):
        v["cap"] = [v["cap"][0], 3 - k % 2]
        if v["init"]:
            v["init"] = [v["init"][0], 1]


def no_dims(sp):
    for c in sp["clients"]:
        c["d"] = c["p"] = []
    for s in sp["ships"]:
        s["amt"] = []
    for v in sp["vtypes"]:
        v["cap"] = v["init"] = []


def zero_matrices(sp):
    num = len(sp["dist"][0])
    sp["dist"][0] = [[0] * num for _ in range(num)]


def same_place(sp):
    for c in sp["clients"]:
        c["loc"] = 4


def at_depot(sp):
    for k, c in enumerate(sp["clients"][:3]):
        c["loc"] = DEPOT_LOC[k // 2]
    for s in sp["ships"][:1]:
        s["ploc"] = DEPOT_LOC[0]


def group(req):
    def apply(sp):
        if len(sp["clients"]) < 2:
            return
        sp["groups"] = [dict(clients=[0, 1], req=req)]
        for idx in (0, 1):
            sp["clients"][idx]["g"] = 0
            sp["clients"][idx]["req"] = False

    return apply


def clear_group(sp):
    sp["groups"] = []
    for c in sp["clients"]:
        if c["g"] is not None:
            c["g"] = None


SLOTS = {
    "cap": {
        "tight": vt(cap=[[4], [3]]),
        "zero": vt(cap=[[0], [5]]),
    },
    "dims": {"two": two_dims, "none": no_dims},
    "init": {"some": vt(init=[[2], [1]])},
    "ctw": {
        "mid": cl(e=[3, 0, 6], l=[9, 5, 12]),
        "late": cl(e=[12, 8, 0], l=[14, 9, 20]),
        "clash": cl(e=[10, 2, 0], l=[10, 2, 1]),
    },
    "serv": {"some": both(cl(s=[2, 0, 3]), sh(ps=[1, 0], ds=[2, 1]))},
    "rel": {
        "some": cl(r=[4, 0, 9], l=[M.LATE]),
        "tw": cl(r=[3, 7, 0], e=[3, 4, 1], l=[8, 9, 15]),
        # Released after another visit of the same trip should have happened.
        "cross": cl(r=[11, 0, 2], e=[0], l=[M.LATE, 4, 6]),
    },
    "dtw": {
        "open": dp(e=[2, 4], l=[30, 12]),
        "short": dp(e=[1, 0], l=[6, 9]),
    },
    "dserv": {"some": dp(s=[2, 1])},
    "vtw": {
        "win": vt(e=[3, 1], l=[25, 14]),
        "short": vt(e=[0, 2], l=[8, 9]),
    },
    "late": {"some": vt(sl=[4, 2])},
    "shift": {
        "hard": vt(shift=[9, 12]),
        "over": vt(shift=[6, 8], ot=[4, 0], uo=[3, 2]),
        "free": vt(shift=[5, 7], ot=[M.LATE], uo=[2, 0]),
    },
    "maxd": {"some": vt(maxdist=[11, 16])},
    "unit": {
        "dur": vt(ud=[0, 2], ut=[2, 1]),
        "both": vt(ud=[2, 1], ut=[1, 3], uo=[1, 0]),
    },
    "prof": {"one": vt(prof=[1, 0])},
    "ends": {
        "diff": vt(start=[0, 1], end=[1, 0]),
        "other": vt(start=[1, 0], end=[1, 0]),
    },
    "reload": {
        "one": vt(reload=[[1], [0]], maxre=[1, 2]),
        "many": vt(reload=[[0, 1], [1]], maxre=[2, None]),
    },
    "fixed": {"some": vt(fixed=[7, 5])},
    "prize": {
        "opt": both(
            cl(prize=[5, 12, 0], req=[False, True, False]),
            sh(prize=[9, 4], req=[False, True]),
        ),
        "all": both(
            cl(prize=[6, 15, 1], req=[False]), sh(prize=[14, 3], req=[False])
        ),
        "none": both(
            cl(prize=[0, 8, 3], req=[False, False, True]),
            sh(prize=[0, 6], req=[False, True]),
        ),
    },
    "group": {"req": group(True), "opt": group(False)},
    "stw": {
        "mid": sh(pe=[2, 0], pl=[8, 6], de=[5, 1], dl=[12, 9]),
        "clash": sh(pe=[6, 3], pl=[9, 5], de=[0, 2], dl=[6, 4]),
    },
    "geo": {"zero": zero_matrices, "same": same_place, "depot": at_depot},
}

SHIP_ONLY = {"stw"}
ORDER = list(SLOTS)


def make(feats, **kwargs):
    """feats: dict slot -> feature name (JSON-able)."""
    sp = base(**kwargs)
    for slot in ORDER:  # fixed application order
        if slot in feats and slot != "dims":
            SLOTS[slot][feats[slot]](sp)
    if "dims" in feats:
        SLOTS["dims"][feats["dims"]](sp)
    return sp


def subsets(t, slots=None, exactly=False):
    slots = slots or ORDER
    for num in range(t if exactly else 0, t + 1):
        for chosen in itertools.combinations(slots, num):
            for names in itertools.product(*(SLOTS[s] for s in chosen)):
                yield dict(zip(chosen, names))


# -- routes and solutions ---------------------------------------------------


def sequences(sp, vt_idx, acts, max_reload=1, reloads=None):
    """All legal orderings of exactly the given activities plus reloads."""
    v = sp["vtypes"][vt_idx]
    if reloads is None:
        reloads = [f"D{d}" for d in v["reload"]]
    limit = min(max_reload, M.max_trips(v) - 1)
    for perm in itertools.permutations(acts):
        for seq in with_reloads(list(perm), reloads, limit):
            if M.legal_route(sp, vt_idx, seq):
                yield seq


def with_reloads(seq, reloads, limit):
    yield list(seq)
    if not reloads:
        return
    for num in range(1, limit + 1):
        for pos in itertools.combinations_with_replacement(
            range(len(seq) + 1), num
        ):
            for which in itertools.product(reloads, repeat=num):
                new = list(seq)
                for at, dep in zip(reversed(pos), reversed(which)):
                    new.insert(at, dep)
                yield new


def routes(sp, vt_idx=0, max_len=3, max_reload=1, reloads=None):
    """All legal routes over subsets of the clients and shipments."""
    items = [[f"C{i}"] for i in range(len(sp["clients"]))]
    items += [[f"L{i}", f"U{i}"] for i in range(len(sp["ships"]))]
    for num in range(len(items) + 1):
        for chosen in itertools.combinations(items, num):
            acts = [a for it in chosen for a in it]
            if len(acts) <= max_len:
                yield from sequences(sp, vt_idx, acts, max_reload, reloads)


def fleet(sp):
    """Vehicle type of each vehicle."""
    return [k for k, v in enumerate(sp["vtypes"]) for _ in range(v["num"])]


def solutions(
    sp, max_reload=0, partial=True, max_routes=None, max_len=None, canon=True
):
    """All structurally legal solutions as lists of (type, activities).

    Vehicles of the same type are interchangeable: assignments are canonical
    up to that symmetry (routes of a type ordered by content).
    """
    items = [[f"C{i}"] for i in range(len(sp["clients"]))]
    items += [[f"L{i}", f"U{i}"] for i in range(len(sp["ships"]))]
    types = fleet(sp)
    slots = list(range(len(types))) + ([-1] if partial else [])
    for assign in itertools.product(slots, repeat=len(items)):
        bags = [[] for _ in types]
        for item, where in zip(items, assign):
            if where >= 0:
                bags[where].extend(item)
        used = [k for k, b in enumerate(bags) if b]
        if max_routes is not None and len(used) > max_routes:
            continue
        if max_len is not None and any(len(b) > max_len for b in bags):
            continue
        if canon:
            bad = False
            for k in range(len(types) - 1):
                if types[k] == types[k + 1]:
                    if (bags[k] or ["~"]) > (bags[k + 1] or ["~"]):
                        bad = True
                        break
            if bad:
                continue
        if not group_ok(sp, bags):
            continue
        options = [
            list(sequences(sp, types[k], bags[k], max_reload)) for k in used
        ]
        for combo in itertools.product(*options):
            yield [(types[k], seq) for k, seq in zip(used, combo)]


def group_ok(sp, bags):
    seen = set()
    for bag in bags:
        for act in bag:
            if act[0] == "C":
                g = sp["clients"][int(act[1:])]["g"]
                if g is not None:
                    if g in seen:
                        return False
                    seen.add(g)
    return True


def real_route(pv, data, vt_idx, acts):
    return pv.Route(data, [pv.Activity(a) for a in acts], vt_idx)


def real_solution(pv, data, routes):
    return pv.Solution(
        data, [real_route(pv, data, k, seq) for k, seq in routes]
    )


def as_lists(sol):
    """Real solution to the canonical (type, activities) form."""
    return [(r.vehicle_type(), acts_of(r)) for r in sol.routes()]


def acts_of(route):
    """The activities of a real route, excluding its start and end depots."""
    return [str(a) for a in route][1:-1]


def chunks(items, num):
    """Splits items into at most num interleaved, nonempty chunks."""
    return [c for c in (items[k::num] for k in range(num)) if c]
