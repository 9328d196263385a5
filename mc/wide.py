"""Instances that are wide rather than intricate.

The lattices in `families` have at most two or three of everything. Here are
instances with many visits (more than fit one block of a bit set), trips,
vehicle types, depots, profiles and load dimensions, and with large values.
"""

import copy

from mc import families as F
from mc import model as M


def base(nc=70, ns=6, nv=3, nd=4, profs=3, dims=3, num=None):
    need = nd + nc + 2 * ns
    num = need if num is None else num

    def loc(k):
        return (k * 5 + 3) % num if num % 5 else (k * 7 + 3) % num

    return M.spec(
        dist=[
            F.matrix(num, 3 + q, 5 + 2 * q, 11 + 2 * q) for q in range(profs)
        ],
        dur=[F.matrix(num, 4 + q, 3 + q, 7 + 2 * q) for q in range(profs)],
        depots=[M.depot(loc(k)) for k in range(nd)],
        clients=[
            M.client(
                loc(nd + k),
                d=[(k * (q + 2)) % (4 + q) for q in range(dims)],
                p=[(k * (q + 3) + 1) % (3 + q) for q in range(dims)],
            )
            for k in range(nc)
        ],
        ships=[
            M.shipment(
                loc(nd + nc + 2 * k), loc(nd + nc + 2 * k + 1),
                amt=[(k + q) % 4 + 1 for q in range(dims)],
            )
            for k in range(ns)
        ],
        vtypes=[
            M.vtype(
                num=30, cap=[20 + 3 * k + q for q in range(dims)],
                start=k % nd, end=(k + 1) % nd, prof=k % profs,
                fixed=5 + k, ud=1 + k, ut=2 - k % 3, uo=1,
                reload=[(k + j) % nd for j in (1, 3, 2)][: nd],
                maxre=[6, 11, None][k % 3],
                init=[(k + q) % 3 for q in range(dims)],
            )
            for k in range(nv)
        ],
    )


# Per feature, something that varies over many visits; values chosen such that
# some are violated and some are not.
FEATS = {
    "plain": lambda sp: None,
    "ctw": lambda sp: spread(
        sp["clients"], e=lambda k: 3 * (k % 29), l=lambda k: 3 * (k % 29) + 60
    ),
    "ctw_tight": lambda sp: spread(
        sp["clients"], e=lambda k: 7 * k, l=lambda k: 7 * k + k % 5
    ),
    "serv": lambda sp: (
        spread(sp["clients"], s=lambda k: k % 4),
        spread(sp["ships"], ps=lambda k: k % 3, ds=lambda k: (k + 1) % 3),
        spread(sp["depots"], s=lambda k: k + 1),
    ),
    "rel": lambda sp: spread(sp["clients"], r=lambda k: (k * 37) % 211),
    "dtw": lambda sp: spread(
        sp["depots"], e=lambda k: 5 * k, l=lambda k: 90 + 40 * k
    ),
    "vtw": lambda sp: spread(
        sp["vtypes"], e=lambda k: 4 * k, l=lambda k: 150 + 20 * k,
        sl=lambda k: 10 + k,
    ),
    "shift": lambda sp: spread(
        sp["vtypes"], shift=lambda k: 40 + 30 * k, ot=lambda k: 20 * k,
        uo=lambda k: 2 + k,
    ),
    "maxd": lambda sp: spread(sp["vtypes"], maxdist=lambda k: 60 + 50 * k),
    "stw": lambda sp: spread(
        sp["ships"], pe=lambda k: 4 * k, pl=lambda k: 4 * k + 30,
        de=lambda k: 5 * k + 10, dl=lambda k: 5 * k + 40,
    ),
    "prize": lambda sp: (
        spread(
            sp["clients"], prize=lambda k: k % 9, req=lambda k: k % 3 == 0
        ),
        spread(sp["ships"], prize=lambda k: 5 + k, req=lambda k: k % 2 == 0),
    ),
    "group": lambda sp: groups(sp),
    "tight": lambda sp: spread(
        sp["vtypes"], cap=lambda k: [4 + k + q for q in range(3)]
    ),
    "all": lambda sp: [
        FEATS[name](sp)
        for name in ("serv", "rel", "dtw", "vtw", "shift", "maxd", "stw")
    ],
}


def spread(items, **funcs):
    for k, item in enumerate(items):
        for key, func in funcs.items():
            item[key] = func(k)


def groups(sp):
    """Groups of three clients that are far apart, every second required."""
    num = len(sp["clients"])
    third = num // 3
    size = min(8, third)
    sp["groups"] = [
        dict(clients=[g, g + third, g + 2 * third], req=g % 2 == 0)
        for g in range(size)
    ]
    for g in range(size):
        for c in sp["groups"][g]["clients"]:
            sp["clients"][c].update(g=g, req=False, prize=g)


def make(name, **kwargs):
    sp = base(**kwargs)
    FEATS[name](sp)
    return M.legalise(sp)


def long_routes(sp, vt):
    """Routes of every length, of different make-up."""
    v = sp["vtypes"][vt]
    nc, ns = len(sp["clients"]), len(sp["ships"])
    visits = [f"C{(k * 3) % nc}" for k in range(nc)] if nc % 3 else [
        f"C{k}" for k in range(nc)
    ]
    for size in range(1, nc + 1):
        yield visits[:size]
    for size in range(1, nc, 5):
        yield visits[size:]
    # Shipments nested, in sequence, and overlapping.
    for count in range(1, ns + 1):
        lo = [f"L{k}" for k in range(count)]
        un = [f"U{k}" for k in range(count)]
        pad = visits[: 3 * count]
        yield lo + pad + un
        yield lo + pad + un[::-1]
        yield [a for pair in zip(lo, pad, un) for a in pair]
        yield pad[:2] + lo + un + pad[2:]
    # Many trips.
    limit = min(M.max_trips(v), 8)
    for trips in range(2, limit + 1):
        for size in (1, 2, 5):
            out = []
            for t in range(trips):
                if t:
                    out.append(f"D{v['reload'][t % len(v['reload'])]}")
                out += visits[t * size : (t + 1) * size]
                if t < ns:
                    out += [f"L{t}", f"U{t}"]
            yield out


def legal_long_routes(sp, vt):
    for acts in long_routes(sp, vt):
        if M.legal_route(sp, vt, acts):
            yield acts


SCALES = [10**6, 2**32 + 1, 10**11]
VALUES = {
    "clients": ("d", "p", "s", "e", "l", "r", "prize"),
    "depots": ("e", "l", "s"),
    "ships": ("amt", "pe", "pl", "ps", "de", "dl", "ds", "prize"),
    "vtypes": ("cap", "fixed", "e", "l", "shift", "maxdist", "sl", "init",
               "ot"),
}


def scaled(sp, by):
    """The same instance with all values (but unit costs) times a factor."""

    def mul(x):
        if x is None or x == M.LATE:
            return x
        return [mul(y) for y in x] if isinstance(x, list) else x * by

    out = copy.deepcopy(sp)
    for key, fields in VALUES.items():
        for item in out[key]:
            for f in fields:
                item[f] = mul(item[f])
    for key in ("dist", "dur"):
        out[key] = [[[x * by for x in row] for row in m] for m in out[key]]
    return out


def fleet(sp, num=8):
    for k, v in enumerate(sp["vtypes"]):
        v["num"] = num + k


def visitable(sp):
    """All clients, but only one of each group."""
    return [
        f"C{i}"
        for i, c in enumerate(sp["clients"])
        if c["g"] is None or sp["groups"][c["g"]]["clients"][c["g"] % 3] == i
    ]


def deal(sp, size, skip=0, reload=False, types=None):
    """A solution that deals visits out in routes of the given size."""
    types = types or F.fleet(sp)
    visits = visitable(sp)
    if skip:
        visits = [a for k, a in enumerate(visits) if k % skip]
    ships = list(range(len(sp["ships"])))
    out = []
    # Alternate between vehicle types.
    order = sorted(range(len(types)), key=lambda k: (types[:k].count(types[k]),
                                                     types[k]))
    for num, veh in enumerate(order):
        vt = types[veh]
        last = num == len(order) - 1
        acts, visits = (visits, []) if last else (visits[:size], visits[size:])
        if ships and (num % 2 or last):
            k = ships.pop()
            half = len(acts) // 2
            acts = [*acts[:half], f"L{k}", *acts[half:], f"U{k}"]
            if last:
                for k in ships:
                    acts += [f"L{k}", f"U{k}"]
                ships = []
        re = sp["vtypes"][vt]["reload"]
        if reload and re and num % 3 == 0 and len(acts) > 2:
            if "L" not in "".join(a[0] for a in acts):
                acts = [*acts[:2], f"D{re[num % len(re)]}", *acts[2:]]
        if acts:
            out.append((vt, list(acts)))
        if not visits and not ships:
            break
    assert M.legal_solution(sp, out), out
    return out
