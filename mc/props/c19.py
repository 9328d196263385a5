"""C19: benchmark files are read and solutions written as specified."""

import itertools
import math
import os
import tempfile

from mc import families as F

ID = "C19"
RULE = (
    "every instance file using <= 3 (thorough: 4) of 18 optional parts of the "
    "format in every variant (sections and specifications, uniform, "
    "heterogeneous, ragged, multi-dimensional, six edge weight types, one and "
    "two depots, shipments), on top of 6 bases, under each rounding "
    "convention with integral and fractional values: the resulting data is "
    "compared to an independently constructed instance; malformed files are "
    "rejected; every legal solution (all assignments, orders and reloads) of "
    "the instances with <= 1 part, written to file and read back; 18 "
    "instances with 11 to 21 vehicles of 1 to 21 types and 12 to 24 clients, "
    "with every range of vehicles in use"
)
ASSUMPTIONS = [
    "5 locations and at most 3 vehicles, except in the large instances",
    "values whose rounding is not ambiguous (no exact halves)",
    "shipment files state their number of vehicles",
]
MAX_VALUE = 1 << 44
INT_MAX = 2**63 - 1
N = 5

SLOTS = {
    "edge": ["lower", "euc", "floor", "ceil", "exact"],
    "coord": ["none"],
    "depot": ["one", "two"],
    "vehicles": ["none", "one"],
    "capacity": ["spec", "section", "dims"],
    "demand": ["demand", "linehaul", "dims"],
    "backhaul": ["section", "vrpb"],
    "tw": ["section"],
    "service": ["spec", "section"],
    "release": ["section"],
    "prize": ["some", "all"],
    "group": ["one", "two", "ragged", "single", "order"],
    "allowed": ["ragged", "single", "all", "same"],
    "reload": ["single", "ragged", "empty"],
    "maxreload": ["spec", "section"],
    "limits": ["distspec", "distsec", "durspec", "dursec"],
    "costs": ["fixed", "unit"],
    "vdepot": ["section"],
}
ROUNDS = [
    ("none", False), ("round", True), ("trunc", True), ("dimacs", True),
    ("exact", True), ("round", False), ("dimacs", False), ("exact", False),
    ("custom", True),
]


def shards(tier):
    order = 3 if tier == "quick" else 4
    combos = [dict(c) for c in choose(order)]
    bases = [
        {}, dict(depot="two", vdepot="section"),
        dict(demand="demand", capacity="section", tw="section"),
        dict(demand="dims", capacity="dims"),
        dict(pd="yes"), dict(pd="yes", depot="two"),
    ]
    out = []
    for base in bases:
        rest = [c for c in combos if not set(c) & set(base)]
        for chunk in F.chunks(rest, 64):
            out.append(dict(kind="instances", base=base, feats=chunk))
    out.append(dict(kind="malformed"))
    for nv, nc, nd in ((12, 14, 1), (11, 12, 3), (21, 24, 2)):
        for caps in (
            [50] * nv, [50 + i for i in range(nv)],
            [50 + i % 2 for i in range(nv)], [50 - i % 5 for i in range(nv)],
            [50 + (i >= 10) for i in range(nv)],
            [50 + (i in (1, 10)) for i in range(nv)],
        ):
            out.append(dict(kind="wide", nv=nv, nc=nc, nd=nd, caps=caps))
    few = [dict(c) for c in choose(1 if tier == "quick" else 2)]
    for base in bases:
        rest = [c for c in few if not set(c) & set(base)]
        for chunk in F.chunks(rest, 24):
            out.append(dict(kind="solutions", base=base, feats=chunk))
    return out


def choose(order):
    for size in range(order + 1):
        for names in itertools.combinations(SLOTS, size):
            for picks in itertools.product(*(SLOTS[n] for n in names)):
                yield zip(names, picks)


def run(shard, ctx):
    globals()[shard["kind"]](ctx, shard)


# -- description of an instance -------------------------------------------------


def describe(f, frac):
    """Raw values (as in the file) of an instance with the given parts."""

    def val(num):
        return num + (0.25, 0.75)[num % 2] if frac else num

    nd = 2 if f.get("depot") == "two" else 1
    nc = 0 if "pd" in f else N - nd
    nv = {"none": nc, "one": 1}.get(f.get("vehicles"), 3)
    d = dict(nd=nd, nc=nc, nv=nv, specs={}, secs={}, f=f)
    specs, secs = d["specs"], d["secs"]
    if f.get("vehicles") != "none":
        specs["VEHICLES"] = nv
    specs["DIMENSION"] = N

    edge = f.get("edge", "full")
    coords = [(val(3), val(4)), (val(11), val(2)), (val(6), val(17)),
              (val(1), val(8)), (val(14), val(13))]
    if f.get("coord") != "none":
        secs["NODE_COORD"] = [[i + 1, *c] for i, c in enumerate(coords)]
        d["coords"] = coords
    if edge in ("full", "lower"):
        specs["EDGE_WEIGHT_TYPE"] = "EXPLICIT"
        specs["EDGE_WEIGHT_FORMAT"] = {
            "full": "FULL_MATRIX", "lower": "LOWER_ROW"
        }[edge]
        mat = [
            [0 if i == j else val(7 * i + 3 * j + i * j % 5 + 1)
             for j in range(N)] for i in range(N)
        ]
        if edge == "lower":
            mat = [[mat[max(i, j)][min(i, j)] for j in range(N)]
                   for i in range(N)]
            secs["EDGE_WEIGHT"] = [mat[i][:i] for i in range(1, N)]
        else:
            secs["EDGE_WEIGHT"] = mat
    else:
        specs["EDGE_WEIGHT_TYPE"] = {
            "euc": "EUC_2D", "floor": "FLOOR_2D", "ceil": "CEIL_2D",
            "exact": "EXACT_2D",
        }[edge]
        func = {
            "euc": lambda x: x, "floor": math.floor, "ceil": math.ceil,
            "exact": lambda x: round(1000 * x),
        }[edge]
        mat = [[func(math.dist(a, b)) for b in coords] for a in coords]
    d["dist"] = mat

    if "depot" in f:
        secs["DEPOT"] = [[i + 1] for i in range(nd)] + [[-1]]

    d["cap"] = [[INT_MAX]] * nv
    if f.get("capacity") == "spec":
        specs["CAPACITY"] = val(20)
        d["cap"] = [[val(20)]] * nv
    elif f.get("capacity") == "section":
        d["cap"] = [[val(20 + i // 2)] for i in range(nv)]
        secs["CAPACITY"] = [[i + 1, *c] for i, c in enumerate(d["cap"])]
    elif f.get("capacity") == "dims":
        d["cap"] = [[val(20), val(30 + i % 2)] for i in range(nv)]
        secs["CAPACITY"] = [[i + 1, *c] for i, c in enumerate(d["cap"])]

    d["demand"] = [[0]] * N
    if "demand" in f:
        name = "LINEHAUL" if f["demand"] == "linehaul" else "DEMAND"
        dims = 2 if f["demand"] == "dims" else 1
        back = f.get("backhaul") == "vrpb"
        d["demand"] = [
            [0 if i < nd or (back and i % 2) else val(i + 3 * k)
             for k in range(dims)] for i in range(N)
        ]
        secs[name] = [[i + 1, *x] for i, x in enumerate(d["demand"])]
    d["back"] = [[0]] * N
    if "backhaul" in f:
        back = f["backhaul"] == "vrpb"
        d["back"] = [
            [0 if i < nd or (back and not i % 2) else val(2 * i)]
            for i in range(N)
        ]
        secs["BACKHAUL"] = [[i + 1, *x] for i, x in enumerate(d["back"])]
        if back:
            specs["TYPE"] = "VRPB"

    d["tw"] = None
    if "tw" in f:
        d["tw"] = [(val(i), val(100 + 10 * i)) for i in range(N)]
        secs["TIME_WINDOW"] = [[i + 1, *x] for i, x in enumerate(d["tw"])]
    d["serv"] = [0] * N
    if f.get("service") == "spec":
        specs["SERVICE_TIME"] = val(5)
        d["serv"] = [0] * nd + [val(5)] * nc
    elif f.get("service") == "section":
        d["serv"] = [0 if i < nd else val(i) for i in range(N)]
        secs["SERVICE_TIME"] = [[i + 1, x] for i, x in enumerate(d["serv"])]
    d["rel"] = [0] * N
    if "release" in f:
        d["rel"] = [0 if i < nd else val(2 * i + 1) for i in range(N)]
        secs["RELEASE_TIME"] = [[i + 1, x] for i, x in enumerate(d["rel"])]
    d["prize"] = [0] * N
    if "prize" in f:
        step = 2 if f["prize"] == "some" else 1
        d["prize"] = [
            val(10 + i) if i >= nd and i % step == 0 else 0 for i in range(N)
        ]
        secs["PRIZE"] = [[i + 1, x] for i, x in enumerate(d["prize"])]

    d["groups"] = []
    if "group" in f:
        groups = {
            "one": [[3, 5]], "two": [[3], [4, 5]], "ragged": [[3, 4, 5], []],
            "single": [[3], [4]], "order": [[5, 3]],
        }[f["group"]]
        secs["MUTUALLY_EXCLUSIVE_GROUP"] = [
            [i + 1, *g] for i, g in enumerate(groups)
        ]
        d["groups"] = [[x - 1 - nd for x in g] for g in groups if len(g) > 1]

    everyone = tuple(range(nd, N))
    d["allowed"] = [everyone] * nv
    if "allowed" in f:
        lists = {
            "ragged": [[3, 4, 5], [4], [3, 5]], "single": [[3], [4], [5]],
            "all": [list(range(nd + 1, N + 1))] * 3,
            "same": [[3, 5], [4, 5], [3, 5]],
        }[f["allowed"]]
        lists = (lists * 2)[:nv]
        secs["VEHICLES_ALLOWED_CLIENTS"] = [
            [i + 1, *x] for i, x in enumerate(lists)
        ]
        d["allowed"] = [tuple(x - 1 for x in li) for li in lists]

    d["reload"] = [()] * nv
    if "reload" in f:
        lists = {
            "single": [[1], [nd], [1]], "ragged": [[1, nd], [nd], [1]],
            "empty": [[], [1], []],
        }[f["reload"]]
        if nd == 1:
            lists = [sorted(set(x)) for x in lists]
        lists = (lists * 2)[:nv]
        secs["VEHICLES_RELOAD_DEPOT"] = [
            [i + 1, *x] for i, x in enumerate(lists)
        ]
        d["reload"] = [tuple(x - 1 for x in li) for li in lists]
    d["maxreload"] = [None] * nv
    if f.get("maxreload") == "spec":
        specs["VEHICLES_MAX_RELOADS"] = 2
        d["maxreload"] = [2] * nv
    elif f.get("maxreload") == "section":
        d["maxreload"] = [i % 2 + 1 for i in range(nv)]
        secs["VEHICLES_MAX_RELOADS"] = [
            [i + 1, x] for i, x in enumerate(d["maxreload"])
        ]
    for key, name in (("dist", "DISTANCE"), ("dur", "DURATION")):
        attr = "max" + key
        d[attr] = [INT_MAX] * nv
        if f.get("limits") == key + "spec":
            specs["VEHICLES_MAX_" + name] = val(60)
            d[attr] = [val(60)] * nv
        elif f.get("limits") == key + "sec":
            d[attr] = [val(60 + i % 2) for i in range(nv)]
            secs["VEHICLES_MAX_" + name] = [
                [i + 1, x] for i, x in enumerate(d[attr])
            ]
    d["fixed"] = [0] * nv
    d["unit"] = [1] * nv
    if f.get("costs") == "fixed":
        d["fixed"] = [val(4 + i % 2) for i in range(nv)]
        secs["VEHICLES_FIXED_COST"] = [
            [i + 1, x] for i, x in enumerate(d["fixed"])
        ]
    elif f.get("costs") == "unit":
        d["unit"] = [2 + i // 2 for i in range(nv)]
        secs["VEHICLES_UNIT_DISTANCE_COST"] = [
            [i + 1, x] for i, x in enumerate(d["unit"])
        ]
    d["vdepot"] = [0] * nv
    if "vdepot" in f:
        d["vdepot"] = [(i + 1) % nd for i in range(nv)]
        secs["VEHICLES_DEPOT"] = [
            [i + 1, x + 1] for i, x in enumerate(d["vdepot"])
        ]

    d["ships"] = []
    if "pd" in f:
        # (pickup, delivery) file indices; the delivery may come first.
        pairs = [(3, 2), (4, 5)] if nd == 1 else [(5, 3)]
        rows = {}
        for i in range(nd):
            rows[i + 1] = [0, val(i), val(200 + i), 0, 0, 0]
        for i in range(nd + 1, N + 1):  # not used by any shipment
            rows[i] = [0, 0, val(200), 0, 0, 0]
        for k, (p, q) in enumerate(pairs):
            rows[p] = [val(4 + k), val(p), val(50 + p), val(k + 1), 0, q]
            rows[q] = [-val(4 + k), val(q), val(90 + q), val(k + 2), p, 0]
            d["ships"].append((p, q, rows[p], rows[q]))
        secs["PICKUP_AND_DELIVERY"] = [[i, *rows[i]] for i in sorted(rows)]
        d["tw"] = [rows[i][1:3] for i in sorted(rows)]
    return d


def text(d):
    out = ["NAME : TEST", "COMMENT : generated"]
    out += [f"{k} : {v}" for k, v in d["specs"].items()]
    for name in ["NODE_COORD", *d["secs"]]:
        if name in d["secs"] and f"{name}_SECTION" not in out:
            out.append(f"{name}_SECTION")
            out += [" ".join(map(str, row)) for row in d["secs"][name]]
    return "\n".join([*out, "EOF", ""])


def valid(f):
    """Whether this combination of parts describes an instance at all."""
    client = {"demand", "backhaul", "tw", "service", "release", "prize",
              "group", "allowed"}
    if "pd" in f and (client & set(f) or f.get("vehicles") == "none"):
        return False
    if f.get("coord") == "none" and f.get("edge", "full") not in (
        "full", "lower"
    ):
        return False
    if f.get("backhaul") == "vrpb" and (
        f.get("demand") not in ("demand", "linehaul") or "depot" in f
    ):
        return False
    # Load dimensions must agree; a missing section is one-dimensional.
    return (f.get("demand") == "dims") == (f.get("capacity") == "dims")


ROUNDERS = {
    "none": lambda x: x,
    "round": lambda x: math.floor(x + 0.5),
    "trunc": math.floor,
    "dimacs": lambda x: math.floor(10 * x),
    "exact": lambda x: math.floor(1000 * x + 0.5),
    "custom": lambda x: 3 * math.floor(x) + (0 if x == 0 else 1),
}


def custom(vals):
    import numpy as np

    return np.where(
        np.asarray(vals) == 0, 0, 3 * np.floor(vals) + 1
    ).astype(np.int64)


def tricky(d, mode):
    """Whether a rounded matrix value is too close to a rounding border."""
    scale, shift = {
        "round": (1, 0.5), "trunc": (1, 0), "dimacs": (10, 0),
        "exact": (1000, 0.5), "custom": (1, 0), "none": (1, 0),
    }[mode]
    if d["f"].get("edge") not in ("euc", "floor", "ceil", "exact"):
        return False
    if d["f"]["edge"] != "euc":
        scale, shift = (1000, 0.5) if d["f"]["edge"] == "exact" else (1, 0)
    pts = d["coords"]
    for a, b in itertools.combinations(pts, 2):
        x = scale * math.dist(a, b) + shift
        if abs(x - round(x)) < 1e-6:
            return True
    return False


def expected(d, mode):
    """The problem data that the file describes."""
    import numpy as np
    import pyvrp as pv

    f, nd, nc, nv = d["f"], d["nd"], d["nc"], d["nv"]

    def rnd(x):
        return x if x >= INT_MAX else (
            -ROUNDERS[mode](-x) if x < 0 else ROUNDERS[mode](x)
        )

    coords = d.get("coords") or [(0, 0)] * N
    locs = [pv.Location(rnd(x), rnd(y)) for x, y in coords]
    tws = d["tw"] or [(0, INT_MAX)] * N
    member = {c: g for g, cs in enumerate(d["groups"]) for c in cs}
    clients = [
        pv.Client(
            location=i,
            delivery=[rnd(x) for x in d["demand"][i]],
            pickup=[rnd(x) for x in d["back"][i]],
            service_duration=rnd(d["serv"][i]),
            tw_early=rnd(tws[i][0]), tw_late=rnd(tws[i][1]),
            release_time=rnd(d["rel"][i]),
            prize=rnd(d["prize"][i]),
            required=d["prize"][i] == 0 and i - nd not in member,
            group=member.get(i - nd),
        )
        for i in range(nd, nd + nc)
    ]
    profiles, types = [], {}
    for v in range(nv):
        if d["allowed"][v] not in profiles:
            profiles.append(d["allowed"][v])
        key = (tuple(d["cap"][v]), d["allowed"][v], d["reload"][v],
               d["vdepot"][v], d["maxdist"][v], d["maxdur"][v],
               d["maxreload"][v], d["fixed"][v], d["unit"][v])
        types.setdefault(key, []).append(v)
    vtypes = []
    for vehicles in types.values():
        v = vehicles[0]
        kwargs = {}
        if d["maxreload"][v] is not None:
            kwargs["max_reloads"] = d["maxreload"][v]
        vtypes.append(
            pv.VehicleType(
                num_available=len(vehicles),
                capacity=[rnd(x) for x in d["cap"][v]],
                start_depot=d["vdepot"][v], end_depot=d["vdepot"][v],
                fixed_cost=rnd(d["fixed"][v]),
                tw_early=rnd(tws[d["vdepot"][v]][0]),
                tw_late=rnd(tws[d["vdepot"][v]][1]),
                shift_duration=rnd(d["maxdur"][v]),
                max_distance=rnd(d["maxdist"][v]),
                unit_distance_cost=d["unit"][v],
                profile=profiles.index(d["allowed"][v]),
                reload_depots=list(d["reload"][v]),
                name=",".join(map(str, vehicles)),
                **kwargs,
            )
        )
    base = [[rnd(x) for x in row] for row in d["dist"]]
    if f.get("backhaul") == "vrpb":
        line = [i for i in range(N) if rnd(d["demand"][i][0]) > 0]
        back = [i for i in range(N) if rnd(d["back"][i][0]) > 0]
        for i in back:
            base[0][i] = MAX_VALUE
            for j in line:
                base[i][j] = MAX_VALUE
    mats = []
    for allowed in profiles:
        ok = set(range(nd)) | set(allowed)
        mats.append(np.array([
            [0 if i == j else base[i][j] if i in ok and j in ok else MAX_VALUE
             for j in range(N)] for i in range(N)
        ]).astype(np.int64))
    ships = [
        pv.Shipment(
            pickup_location=p - 1, delivery_location=q - 1,
            amount=[rnd(pick[0])],
            pickup_tw_early=rnd(pick[1]), pickup_tw_late=rnd(pick[2]),
            pickup_service_duration=rnd(pick[3]),
            delivery_tw_early=rnd(drop[1]), delivery_tw_late=rnd(drop[2]),
            delivery_service_duration=rnd(drop[3]),
            name=f"{p} -> {q}",
        )
        for p, q, pick, drop in sorted(d["ships"])
    ]
    return pv.ProblemData(
        locations=locs, clients=clients,
        depots=[pv.Depot(i) for i in range(nd)],
        vehicle_types=vtypes, distance_matrices=mats, duration_matrices=mats,
        groups=[pv.ClientGroup(g) for g in d["groups"]], shipments=ships,
    )


def parts(data):
    return dict(
        locations=list(data.locations()), clients=list(data.clients()),
        depots=list(data.depots()), vehicle_types=list(data.vehicle_types()),
        groups=list(data.groups()), shipments=list(data.shipments()),
        distances=[m.tolist() for m in data.distance_matrices()],
        durations=[m.tolist() for m in data.duration_matrices()],
    )


def show(obj):
    names = [n for n in dir(obj) if not n.startswith("_")]
    return {n: v for n in names if not callable(v := getattr(obj, n))}


def instances(ctx, shard):
    import pyvrp as pv

    with tempfile.TemporaryDirectory(prefix="verif-c19-") as tmp:
        where = os.path.join(tmp, "x.vrp")
        for extra in shard["feats"]:
            f = {**shard["base"], **extra}
            if not valid(f):
                ctx.count("undescribed")
                continue
            for mode, frac in ROUNDS:
                d = describe(f, frac)
                if tricky(d, mode):
                    ctx.count("ambiguous")
                    continue
                if mode == "none" and f.get("edge") == "euc":
                    continue
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                with open(where, "w") as fh:
                    fh.write(text(d))

                def case():
                    return dict(parts=f, mode=mode, file=text(d))

                try:
                    want = expected(d, mode)
                except Exception as err:
                    raise RuntimeError(f"{f} {mode} {frac}") from err
                try:
                    got = pv.read(where, custom if mode == "custom" else mode)
                except Exception as err:
                    ctx.fail(case(), f"cannot be read: {err!r}")
                    continue
                if got == want:
                    continue
                one, two = parts(got), parts(want)
                for key in one:
                    if len(one[key]) != len(two[key]):
                        ctx.fail(case(), f"{len(one[key])} {key}, want "
                                         f"{len(two[key])}")
                        break
                    diff = [(a, b) for a, b in zip(one[key], two[key])
                            if a != b]
                    if diff:
                        ctx.fail(case(), f"{key}: got {show(diff[0][0])}, "
                                         f"want {show(diff[0][1])}"[:1200])
                        break
                else:
                    ctx.fail(case(), "data differs")
        ctx.sample(dict(parts=extra))


def malformed(ctx, shard):
    import pyvrp as pv

    def sec(name, rows):
        return lambda d: d["secs"].update({name: rows})

    changes = dict(
        depot_not_first=sec("DEPOT", [[2], [-1]]),
        depots_apart=sec("DEPOT", [[1], [3], [-1]]),
        depot_none=sec("DEPOT", [[-1]]),
        depots_swapped=sec("DEPOT", [[2], [1], [-1]]),
        few_capacities=sec("CAPACITY", [[1, 4], [2, 4]]),
        many_capacities=sec("CAPACITY", [[i, 4] for i in range(1, 5)]),
        few_depots=sec("VEHICLES_DEPOT", [[1, 1], [2, 1]]),
        few_reloads=sec("VEHICLES_RELOAD_DEPOT", [[1, 1], [2, 1]]),
        few_allowed=sec("VEHICLES_ALLOWED_CLIENTS", [[1, 3], [2, 3]]),
        many_allowed=sec("VEHICLES_ALLOWED_CLIENTS",
                         [[i, 3] for i in range(1, 5)]),
        few_fixed=sec("VEHICLES_FIXED_COST", [[1, 3], [2, 3]]),
        few_unit=sec("VEHICLES_UNIT_DISTANCE_COST", [[1, 3], [2, 3]]),
        few_dist=sec("VEHICLES_MAX_DISTANCE", [[1, 3], [2, 3]]),
        few_dur=sec("VEHICLES_MAX_DURATION", [[1, 3], [2, 3]]),
        few_maxre=sec("VEHICLES_MAX_RELOADS", [[1, 3], [2, 3]]),
        bad_window=sec("TIME_WINDOW", [[i, 9, 3] for i in range(1, 6)]),
        bad_edge=lambda d: d["specs"].update(EDGE_WEIGHT_TYPE="UNKNOWN"),
        bad_format=lambda d: d["specs"].update(EDGE_WEIGHT_FORMAT="UNKNOWN"),
        far_depot=sec("VEHICLES_DEPOT", [[1, 1], [2, 1], [3, 4]]),
        far_reload=sec("VEHICLES_RELOAD_DEPOT", [[1, 1], [2, 1], [3, 4]]),
    )
    with tempfile.TemporaryDirectory(prefix="verif-c19-") as tmp:
        where = os.path.join(tmp, "x.vrp")
        for name, change in changes.items():
            for mode, frac in ROUNDS[:5]:
                ctx.states += 1
                ctx.transitions += 1
                d = describe({}, frac)
                change(d)
                with open(where, "w") as fh:
                    fh.write(text(d))
                try:
                    pv.read(where, mode)
                    ctx.fail(dict(change=name, file=text(d)), "was accepted")
                except (ValueError, IndexError, RuntimeError):
                    pass
        with open(where, "w") as fh:
            fh.write(text(describe({}, False)))
        for func in ("", "Round", "asdf", 3, None, [1]):
            ctx.states += 1
            ctx.transitions += 1
            try:
                pv.read(where, func)
                ctx.fail(dict(round_func=func), "was accepted")
            except TypeError:
                pass


# -- solutions --------------------------------------------------------------------


def all_solutions(d, limit):
    """All legal solutions as lists of (vehicle type, visited locations)."""
    nv, nd = d["nv"], d["nd"]
    types, order = {}, []
    for v in range(nv):
        key = (tuple(d["cap"][v]), d["allowed"][v], d["reload"][v],
               d["vdepot"][v], d["maxdist"][v], d["maxdur"][v],
               d["maxreload"][v], d["fixed"][v], d["unit"][v])
        types.setdefault(key, len(types))
        order.append(types[key])
    pairs = [(p - 1, q - 1) for p, q, *_ in d["ships"]]
    visits = list(range(nd, nd + d["nc"])) + [x for pq in pairs for x in pq]
    if d["nc"] == 4:
        visits = visits[:3]
    groups = [[c + nd for c in g] for g in d["groups"]]
    seen = set()
    for assign in itertools.product(range(-1, nv), repeat=len(visits)):
        where = dict(zip(visits, assign))
        if any(where[p] != where[q] for p, q in pairs):
            continue
        if any(sum(where.get(c, -1) >= 0 for c in g) > 1 for g in groups):
            continue
        bags = [[x for x in visits if where[x] == v] for v in range(nv)]
        for perms in itertools.product(
            *(itertools.permutations(b) for b in bags)
        ):
            ok = all(
                perm.index(p) < perm.index(q)
                for perm in perms for p, q in pairs if p in perm
            )
            if not ok:
                continue
            choices = []
            for v, perm in enumerate(perms):
                opts = [perm]
                most = d["maxreload"][v]
                if len(perm) > 1 and (most is None or most > 0):
                    # Shipments may not be on board while reloading, which
                    # only holds between pairs.
                    for cut in range(1, len(perm)):
                        aboard = sum(
                            (p in perm[:cut]) - (q in perm[:cut])
                            for p, q in pairs if p in perm
                        )
                        if not aboard:
                            opts += [
                                (*perm[:cut], r, *perm[cut:])
                                for r in d["reload"][v]
                            ]
                choices.append(opts)
            for pick in itertools.product(*choices):
                sol = tuple(
                    (order[v], r) for v, r in enumerate(pick) if r
                )
                if sol not in seen:
                    seen.add(sol)
                    yield list(sol)


def solutions(ctx, shard):
    import pyvrp as pv

    with tempfile.TemporaryDirectory(prefix="verif-c19-") as tmp:
        where = os.path.join(tmp, "x.vrp")
        there = os.path.join(tmp, "x.sol")
        for extra in shard["feats"]:
            f = {**shard["base"], **extra}
            if not valid(f) or f.get("edge") == "euc":
                continue
            d = describe(f, False)
            with open(where, "w") as fh:
                fh.write(text(d))
            data = pv.read(where)
            act = {}
            for i in range(d["nd"]):
                act[i] = pv.Activity(pv.ActivityType.DEPOT, i)
            for i in range(d["nc"]):
                act[i + d["nd"]] = pv.Activity(pv.ActivityType.CLIENT, i)
            for i, (p, q, *_) in enumerate(sorted(d["ships"])):
                act[p - 1] = pv.Activity(pv.ActivityType.PICKUP, i)
                act[q - 1] = pv.Activity(pv.ActivityType.DELIVERY, i)
            for routes in all_solutions(d, 3):
                ctx.states += 1
                sol = pv.Solution(data, [
                    pv.Route(data, [act[x] for x in r], k) for k, r in routes
                ])

                def case():
                    return dict(parts=f, routes=routes)

                round_trip(ctx, data, sol, routes, there, case)
    ctx.count("instances", len(shard["feats"]))


def round_trip(ctx, data, sol, routes, there, case):
    import pyvrp as pv
    from pyvrp.cli import write_solution

    res = pv.Result(sol, pv.Statistics(), 1, 0.0)
    write_solution(there, data, res)
    ctx.transitions += 2
    ctx.traces += 1
    again = pv.read_solution(there, data)
    if again != sol:
        ctx.fail(case(), f"read back {F.as_lists(again)}")
    with open(there) as fh:
        lines = fh.read().splitlines()
    got = sorted(
        tuple(map(int, ln.partition(":")[2].split()))
        for ln in lines if ln.startswith("Route #")
    )
    got = [g for g in got if g]
    want = sorted(tuple(r) for _, r in routes)
    ctx.equal(got, want, case, "routes in file")
    nums = [ln.partition(":")[0] for ln in lines
            if ln.startswith("Route #")]
    ctx.equal(nums, [f"Route #{i + 1}" for i in range(len(nums))],
              case, "route numbers")
    cost = [ln for ln in lines if ln.startswith("Cost")]
    ctx.equal(cost, [f"Cost: {round(res.cost(), 2)}"], case,
              "cost in file")
    if data.num_vehicle_types > 1:
        # The line number identifies the vehicle.
        names = {
            int(v): k
            for k, vt in enumerate(data.vehicle_types())
            for v in vt.name.split(",")
        }
        used = sorted(
            (names[i], tuple(map(int, ln.split(":")[1].split())))
            for i, ln in enumerate(lines[:-1])
            if ln.split(":")[1].split()
        )
        ctx.equal(used, sorted((k, tuple(r)) for k, r in routes),
                  case, "vehicles in file")


# -- large instances -----------------------------------------------------------


def wide(ctx, shard):
    """Instances with many vehicles, locations and depots, so that numbers in
    the files have two digits."""
    import pyvrp as pv

    nv, nc, nd, caps = (shard[k] for k in ("nv", "nc", "nd", "caps"))
    n = nd + nc
    mat = [[abs(i - j) * 7 + (i > j) for j in range(n)] for i in range(n)]
    demand = [0] * nd + [3 + i for i in range(nc)]
    lines = [
        "NAME: wide", "TYPE: CVRP", f"DIMENSION: {n}", f"VEHICLES: {nv}",
        "EDGE_WEIGHT_TYPE: EXPLICIT", "EDGE_WEIGHT_FORMAT: FULL_MATRIX",
        "EDGE_WEIGHT_SECTION",
        *(" ".join(map(str, row)) for row in mat),
        "DEMAND_SECTION", *(f"{i + 1} {q}" for i, q in enumerate(demand)),
        "CAPACITY_SECTION", *(f"{i + 1} {c}" for i, c in enumerate(caps)),
        "VEHICLES_DEPOT_SECTION",
        *(f"{i + 1} {i % nd + 1}" for i in range(nv)),
        "DEPOT_SECTION", *(str(i + 1) for i in range(nd)), "-1", "EOF",
    ]
    kinds = []
    for v in range(nv):
        kind = (caps[v], v % nd)
        if kind not in kinds:
            kinds.append(kind)
    of = [kinds.index((caps[v], v % nd)) for v in range(nv)]

    def base():
        return dict(nv=nv, nc=nc, nd=nd, caps=caps)

    with tempfile.TemporaryDirectory(prefix="verif-c19-") as tmp:
        where = os.path.join(tmp, "x.vrp")
        there = os.path.join(tmp, "x.sol")
        with open(where, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        data = pv.read(where)
        ctx.states += 1
        ctx.traces += 1
        got = [(vt.capacity, vt.start_depot, vt.end_depot, vt.num_available,
                vt.name) for vt in data.vehicle_types()]
        want = [([c], d, d, of.count(k),
                 ",".join(str(v) for v in range(nv) if of[v] == k))
                for k, (c, d) in enumerate(kinds)]
        ctx.equal([g[:4] for g in got], [w[:4] for w in want], base,
                  "vehicle types")
        ctx.equal([c.delivery for c in data.clients()],
                  [[q] for q in demand[nd:]], base, "demands")
        ctx.equal(data.distance_matrices()[0].tolist(), mat, base, "matrix")
        for size in range(nv + 1):
            for first in range(nv if size else 1):
                for step in (1, -1):
                    cars = [(first + step * i) % nv for i in range(size)]
                    rest = list(range(nd, n))[::step]
                    routes = []
                    for i, v in enumerate(cars):
                        take = 2 if i == 0 and size < nc else 1
                        routes.append((of[v], tuple(rest[:take])))
                        del rest[:take]
                    routes = [r for r in routes if r[1]]
                    ctx.states += 1
                    sol = pv.Solution(data, [
                        pv.Route(data, [x - nd for x in r], k)
                        for k, r in routes
                    ])

                    def case():
                        return dict(base(), routes=routes)

                    round_trip(ctx, data, sol, routes, there, case)
