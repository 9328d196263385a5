"""C17: which instance data is accepted, and that it is preserved exactly."""

import copy
import itertools

ID = "C17"
RULE = (
    "every combination of small valid and invalid constructor arguments of "
    "Location, Depot, Client, ClientGroup and Shipment, of interacting "
    "vehicle type arguments and every pair (thorough: triple) of all its "
    "arguments; every set of <= 3 (thorough: 4) out of 56 changes to a valid "
    "instance (references, sizes, windows, groups, matrices), given to the "
    "constructor and to replace(); acceptance and all attributes are compared "
    "to reference rules; replace() with every pair of arguments; objects, "
    "given arguments and returned values cannot change constructed data; "
    "every subset of arguments omitted; matrices of every size <= 4, number "
    "type and memory layout; values at the limits of the integers, for every "
    "argument"
)
ASSUMPTIONS = ["up to 2 load dimensions; small integer values"]
LATE = 2**63 - 1


def shards(tier):
    out = [dict(kind="small"), dict(kind="immutable"), dict(kind="omitted"),
           dict(kind="layout"), dict(kind="large")]
    for req in (True, False):
        for d in range(len(LOADS)):
            out.append(dict(kind="client", req=req, d=d))
    for k in range(5):
        out.append(dict(kind="ship", pe=k))
    for k in range(3):
        out.append(dict(kind="vt", part=k))
    order = 2 if tier == "quick" else 3
    for k in range(len(VT)):
        out.append(dict(kind="vtmix", first=k, order=order))
    most = 3 if tier == "quick" else 4
    for k in range(len(CHANGES)):
        out.append(dict(kind="data", first=k, most=most))
    return out


LOADS = ([], [0], [3], [-1], [1, 2], [2, -1])


def raises(func):
    """(object, None) or (None, exception class)."""
    try:
        return func(), None
    except (ValueError, IndexError) as exc:
        return None, type(exc)


def judge(ctx, case, func, valid, want):
    """want: attribute -> expected value, for accepted objects."""
    ctx.states += 1
    ctx.traces += 1
    obj, exc = raises(func)
    if valid != (exc is None):
        ctx.fail(case, "valid, but rejected" if valid else "invalid, but accepted")
        return None
    if obj is not None:
        for key, val in want.items():
            got = obj
            for part in key.split("."):
                got = getattr(got, part)
            if isinstance(val, list):
                got = list(got)
            if got != val or type(got) is not type(val):
                ctx.fail(case, f"{key} is {got!r}, want {val!r}")
    return obj


def pad(a, b):
    num = max(len(a), len(b))
    return a + [0] * (num - len(a))


def run(shard, ctx):
    import pyvrp as pv

    globals()["run_" + shard["kind"]](shard, ctx, pv)


def run_small(shard, ctx, pv):
    for x, y, name in itertools.product(
        (-1.5, 0.0, 2.0), (-3.0, 0.25), ("", "a", "ünï", "x" * 300)
    ):
        judge(ctx, (x, y, name), lambda: pv.Location(x, y, name=name), True,
              dict(x=x, y=y, name=name))
    for loc, e, l, s, name in itertools.product(
        (0, 3), (-1, 0, 4, 5, 9), (-1, 0, 4, 5, 9, LATE), (-1, 0, 2), ("", "d")
    ):
        judge(
            ctx, ("depot", loc, e, l, s),
            lambda: pv.Depot(loc, e, l, s, name=name),
            0 <= e <= l and s >= 0,
            dict(location=loc, tw_early=e, tw_late=l, service_duration=s,
                 name=name),
        )
    for num in range(4):
        for clients in itertools.product(range(3), repeat=num):
            for req in (True, False):
                obj = judge(
                    ctx, ("group", clients, req),
                    lambda: pv.ClientGroup(list(clients), req, name="g"),
                    len(set(clients)) == num,
                    dict(clients=list(clients), required=req,
                         mutually_exclusive=True, name="g"),
                )
                if obj is not None:
                    ctx.equal(list(obj), list(clients), clients, "iteration")
                    ctx.equal(len(obj), num, clients, "length")
                    for more in range(3):
                        _, exc = raises(lambda: obj.add_client(more))
                        ctx.check(
                            (exc is None) == (more not in clients),
                            (clients, more), "add_client",
                        )
                        break
    d = pv.Depot(2)
    ctx.equal((d.tw_early, d.tw_late, d.service_duration, d.name),
              (0, LATE, 0, ""), "depot", "defaults")
    ctx.sample(dict(what="Location, Depot, ClientGroup"))


def run_client(shard, ctx, pv):
    d, req = LOADS[shard["d"]], shard["req"]
    for p, s, e, l, r, prize, group in itertools.product(
        LOADS, (-1, 0, 3), (-1, 0, 5, 6), (-1, 0, 5, 6, LATE), (-1, 0, 5, 6),
        (-1, 0, 4), (None, 0, 2),
    ):
        valid = (
            all(x >= 0 for x in d + p) and s >= 0 and 0 <= e <= l
            and 0 <= r <= l and prize >= 0
        )
        judge(
            ctx, ("client", d, p, s, e, l, r, prize, req, group),
            lambda: pv.Client(
                7, delivery=d, pickup=p, service_duration=s, tw_early=e,
                tw_late=l, release_time=r, prize=prize, required=req,
                group=group, name="c",
            ),
            valid,
            dict(location=7, delivery=pad(d, p), pickup=pad(p, d),
                 service_duration=s, tw_early=e, tw_late=l, release_time=r,
                 prize=prize, required=req, group=group, name="c"),
        )
    ctx.sample(dict(last=("client", d, p, s, e, l, r, prize, req, group)))


def run_ship(shard, ctx, pv):
    pe = (-1, 0, 3, 5, 8)[shard["pe"]]
    for pl, ps, de, dl, ds, amt, prize, req in itertools.product(
        (-1, 0, 4, 8), (-1, 0, 2), (-1, 0, 6), (-1, 0, 4, 6, 8), (-1, 0, 1),
        ([], [0], [4, 5], [-1], [1, -2]), (-1, 0, 9), (True, False),
    ):
        valid = (
            0 <= pe <= pl and 0 <= de <= dl and pe <= dl and ps >= 0
            and ds >= 0 and all(a >= 0 for a in amt) and prize >= 0
        )
        judge(
            ctx, ("shipment", pe, pl, ps, de, dl, ds, amt, prize, req),
            lambda: pv.Shipment(3, 4, pe, pl, ps, de, dl, ds, amt, prize, req,
                                name="s"),
            valid,
            {
                "pickup.location": 3, "delivery.location": 4,
                "pickup.tw_early": pe, "pickup.tw_late": pl,
                "pickup.service_duration": ps, "delivery.tw_early": de,
                "delivery.tw_late": dl, "delivery.service_duration": ds,
                "amount": amt, "prize": prize, "required": req, "name": "s",
            },
        )
    ctx.sample(dict(last=("shipment", pe, pl, ps, de, dl, ds, amt, prize)))


VT = dict(
    num_available=(0, 1, 3), capacity=LOADS, start_depot=(0, 2),
    end_depot=(0, 3), fixed_cost=(0, 5), tw_early=(-1, 0, 4, 7),
    tw_late=(-1, 0, 5, 9, LATE), shift_duration=(-1, 0, 6, LATE - 1, LATE),
    max_distance=(-1, 0, 8, LATE), unit_distance_cost=(-1, 0, 1, 3),
    unit_duration_cost=(-1, 0, 2), profile=(0, 1), start_late=(None, -1, 0, 5, 8),
    initial_load=([], [0], [1], [4], [-1], [0, 1]),
    reload_depots=([], [1], [0, 2], [1, 1]),
    max_reloads=(0, 1, 5, 2**64 - 1), max_overtime=(-1, 0, 7, LATE),
    unit_overtime_cost=(-1, 0, 3), name=("", "v"),
)
VTDEF = dict(
    num_available=1, capacity=[], start_depot=0, end_depot=0, fixed_cost=0,
    tw_early=0, tw_late=LATE, shift_duration=LATE, max_distance=LATE,
    unit_distance_cost=1, unit_duration_cost=0, profile=0, start_late=None,
    initial_load=[], reload_depots=[], max_reloads=2**64 - 1, max_overtime=0,
    unit_overtime_cost=0, name="",
)


def vt_expect(kw):
    """(valid, attributes) of a vehicle type given its arguments."""
    a = dict(VTDEF, **kw)
    cap = pad(a["capacity"], a["initial_load"])
    init = pad(a["initial_load"], a["capacity"])
    start = a["tw_late"] if a["start_late"] is None else a["start_late"]
    valid = (
        a["num_available"] > 0
        and all(c >= i >= 0 for c, i in zip(cap, init))
        and 0 <= a["tw_early"] <= start <= a["tw_late"]
        and min(
            a["shift_duration"], a["max_distance"], a["unit_distance_cost"],
            a["unit_duration_cost"], a["max_overtime"],
            a["unit_overtime_cost"],
        ) >= 0
    )
    trips = 1 if not a["reload_depots"] else min(a["max_reloads"] + 1, 2**64 - 1)
    want = dict(
        a, capacity=cap, initial_load=init, start_late=start,
        max_duration=min(a["shift_duration"] + a["max_overtime"], LATE),
        max_trips=trips,
    )
    return valid, want


def run_vt(shard, ctx, pv):
    groups = (
        ("tw_early", "tw_late", "start_late", "shift_duration",
         "max_overtime"),
        ("capacity", "initial_load", "num_available", "max_distance",
         "unit_distance_cost"),
        ("reload_depots", "max_reloads", "unit_duration_cost",
         "unit_overtime_cost", "profile", "name"),
    )
    keys = groups[shard["part"]]
    for vals in itertools.product(*(VT[k] for k in keys)):
        kw = dict(zip(keys, vals))
        valid, want = vt_expect(kw)
        judge(ctx, kw, lambda: pv.VehicleType(**kw), valid, want)
    ctx.sample(kw)


FULL = dict(
    num_available=2, capacity=[9, 8], start_depot=1, end_depot=2, fixed_cost=3,
    tw_early=2, tw_late=30, shift_duration=40, max_distance=50,
    unit_distance_cost=6, unit_duration_cost=7, profile=1, start_late=20,
    initial_load=[1, 2], reload_depots=[2, 1], max_reloads=4, max_overtime=5,
    unit_overtime_cost=8, name="full",
)


def run_vtmix(shard, ctx, pv):
    """All pairs (triples) of arguments, for construction and replacement."""
    keys = list(VT)
    first = keys[shard["first"]]
    later = keys[shard["first"] + 1 :]
    full = pv.VehicleType(**FULL)
    _, full_want = vt_expect(FULL)
    for num in range(shard["order"]):
        for rest in itertools.combinations(later, num):
            names = (first, *rest)
            for vals in itertools.product(*(VT[k] for k in names)):
                kw = dict(zip(names, vals))
                valid, want = vt_expect(kw)
                judge(ctx, kw, lambda: pv.VehicleType(**kw), valid, want)
                # None means "keep" when replacing.
                new = {k: v for k, v in kw.items() if v is not None}
                valid, want = vt_expect({**FULL, **new})
                judge(ctx, dict(replace=kw), lambda: full.replace(**kw),
                      valid, want)
    judge(ctx, "original after replace()", lambda: full, True, full_want)
    ctx.sample(kw)


# -- whole instances --------------------------------------------------------


def base():
    return dict(
        locs=5,
        clients=[
            dict(loc=1, d=[1, 2], p=[0, 0]), dict(loc=2, d=[2, 1], p=[1, 0]),
            dict(loc=3, d=[0, 1], p=[0, 3], req=False, group=0),
            dict(loc=4, d=[1, 1], p=[0, 0], req=False, group=0),
        ],
        depots=[dict(loc=0, e=0, l=50), dict(loc=1, e=20, l=60)],
        groups=[[2, 3]],
        ships=[dict(p=1, d=2, amt=[1, 2])],
        vts=[dict(cap=[9, 9], s=0, t=1, e=10, l=40, prof=1, reload=[1]),
             dict(cap=[5, 5], s=1, t=1, e=0, l=20, prof=0, reload=[])],
        dist=[(5, 5, 0), (5, 5, 0)],
        dur=[(5, 5, 0), (5, 5, 0)],
    )


def setter(*path_and_value):
    *path, last, value = path_and_value

    def apply(sp):
        obj = sp
        for part in path:
            obj = obj[part]
        obj[last] = copy.deepcopy(value)

    apply.label = path_and_value
    return apply


def dropper(key, idx):
    def apply(sp):
        if len(sp[key]) > 0:
            sp[key].pop(idx)

    apply.label = ("drop", key, idx)
    return apply


def adder(key, value):
    def apply(sp):
        sp[key].append(copy.deepcopy(value))

    apply.label = ("add", key, value)
    return apply


CHANGES = [
    setter("clients", 0, "loc", 4), setter("clients", 0, "loc", 5),
    setter("clients", 1, "loc", 99), setter("clients", 0, "d", [1]),
    setter("clients", 0, "d", [1, 2, 3]), setter("clients", 1, "p", [1, 2, 3]),
    setter("clients", 0, "group", 0), setter("clients", 0, "group", 1),
    setter("clients", 2, "group", None), setter("clients", 2, "req", True),
    setter("clients", 3, "group", 1), setter("clients", 0, "req", False),
    dropper("clients", 3), dropper("clients", 0), setter("clients", []),
    setter("depots", 0, "loc", 4), setter("depots", 0, "loc", 5),
    setter("depots", 1, "loc", 7), setter("depots", []), dropper("depots", 1),
    setter("depots", 0, "l", 10), setter("depots", 0, "l", 9),
    setter("depots", 1, "e", 40), setter("depots", 1, "e", 41),
    adder("depots", dict(loc=2, e=0, l=3)),
    setter("groups", 0, []), setter("groups", 0, [2]),
    setter("groups", 0, [0, 2, 3]), setter("groups", 0, [2, 3, 4]),
    setter("groups", []), adder("groups", []), adder("groups", [0]),
    adder("groups", [3]),
    setter("ships", 0, "p", 4), setter("ships", 0, "p", 5),
    setter("ships", 0, "d", 5), setter("ships", 0, "amt", [1]),
    setter("ships", 0, "amt", [1, 2, 3]), setter("ships", []),
    setter("vts", 0, "cap", [9]), setter("vts", 1, "cap", [1, 2, 3]),
    setter("vts", 0, "s", 1), setter("vts", 0, "s", 2),
    setter("vts", 1, "t", 2), setter("vts", 0, "prof", 2),
    setter("vts", 0, "reload", [0, 1]), setter("vts", 1, "reload", [0, 2]),
    setter("vts", []), dropper("vts", 0),
    setter("dist", []), dropper("dist", 1), dropper("dur", 1),
    setter("dist", 1, (4, 4, 0)), setter("dist", 0, (5, 4, 0)),
    setter("dur", 1, (4, 5, 0)), setter("dist", 1, (5, 5, 1)),
    setter("dur", 0, (5, 5, 1)), setter("locs", 4), setter("locs", 6),
]


def valid_instance(sp):
    nl, nc, nd = sp["locs"], len(sp["clients"]), len(sp["depots"])
    if not sp["depots"] or not sp["vts"] or not sp["dist"] or not sp["dur"]:
        return False
    dims = {len(pad(c["d"], c["p"])) for c in sp["clients"]}
    dims |= {len(s["amt"]) for s in sp["ships"]}
    dims |= {len(v["cap"]) for v in sp["vts"]}
    if len(dims) != 1:
        return False
    used = [c["loc"] for c in sp["clients"]] + [d["loc"] for d in sp["depots"]]
    used += [x for s in sp["ships"] for x in (s["p"], s["d"])]
    if max(used) >= nl:
        return False
    # Groups and clients must agree.
    member = {}
    for g, clients in enumerate(sp["groups"]):
        if not clients:
            return False
        for c in clients:
            if c >= nc or sp["clients"][c].get("group") != g:
                return False
            member[c] = g
    for k, c in enumerate(sp["clients"]):
        if c.get("group") is not None:
            if member.get(k) != c["group"] or c.get("req", True):
                return False
    for v in sp["vts"]:
        if max([v["s"], v["t"], *v["reload"]]) >= nd:
            return False
        if v["prof"] >= len(sp["dist"]):
            return False
        for d in (sp["depots"][v["s"]], sp["depots"][v["t"]]):
            if d["e"] > v["l"] or d["l"] < v["e"]:
                return False
    if len(sp["dist"]) != len(sp["dur"]):
        return False
    return all(m == (nl, nl, 0) for m in sp["dist"] + sp["dur"])


def matrix(shape, add):
    import numpy as np

    rows, cols, diag = shape
    mat = np.arange(rows * cols, dtype=np.int64).reshape(rows, cols) + add
    for k in range(min(rows, cols)):
        mat[k, k] = 0
    if diag:
        mat[min(rows, cols) - 1, min(rows, cols) - 1] = 3
    return mat


def parts(pv, sp):
    return dict(
        locations=[pv.Location(k, 2 * k) for k in range(sp["locs"])],
        clients=[
            pv.Client(c["loc"], c["d"], c["p"], required=c.get("req", True),
                      group=c.get("group"))
            for c in sp["clients"]
        ],
        depots=[pv.Depot(d["loc"], d["e"], d["l"]) for d in sp["depots"]],
        vehicle_types=[
            pv.VehicleType(
                2, v["cap"], v["s"], v["t"], tw_early=v["e"], tw_late=v["l"],
                profile=v["prof"], reload_depots=v["reload"],
            )
            for v in sp["vts"]
        ],
        distance_matrices=[
            matrix(m, 10 * k) for k, m in enumerate(sp["dist"])
        ],
        duration_matrices=[
            matrix(m, 100 * k + 5) for k, m in enumerate(sp["dur"])
        ],
        groups=[pv.ClientGroup(g) for g in sp["groups"]],
        shipments=[pv.Shipment(s["p"], s["d"], amount=s["amt"])
                   for s in sp["ships"]],
    )


def same(data, kw):
    """Whether the data is exactly what was given."""
    for key, val in kw.items():
        got = getattr(data, key)()
        if key.endswith("matrices"):
            if [m.tolist() for m in got] != [m.tolist() for m in val]:
                return f"{key} differ"
        elif list(got) != val:
            return f"{key} differ"
    num = dict(
        num_locations=len(kw["locations"]), num_clients=len(kw["clients"]),
        num_depots=len(kw["depots"]), num_groups=len(kw["groups"]),
        num_shipments=len(kw["shipments"]),
        num_vehicle_types=len(kw["vehicle_types"]),
        num_vehicles=sum(v.num_available for v in kw["vehicle_types"]),
        num_profiles=len(kw["distance_matrices"]),
        num_load_dimensions=len(kw["vehicle_types"][0].capacity),
    )
    for key, val in num.items():
        if getattr(data, key) != val:
            return f"{key} is {getattr(data, key)}, want {val}"
    single = dict(
        location="locations", client="clients", depot="depots", group="groups",
        shipment="shipments", vehicle_type="vehicle_types",
    )
    for one, many in single.items():
        if [getattr(data, one)(k) for k in range(len(kw[many]))] != kw[many]:
            return f"{one}() differs"
    for one in ("distance_matrix", "duration_matrix"):
        many = one.replace("matrix", "matrices")
        for k, mat in enumerate(kw[many]):
            if getattr(data, one)(k).tolist() != mat.tolist():
                return f"{one}() differs"
    windowed = any(
        x.tw_early != 0 or x.tw_late != LATE
        for x in kw["clients"] + kw["depots"] + kw["vehicle_types"]
    ) or any(
        y.tw_early != 0 or y.tw_late != LATE
        for s in kw["shipments"] for y in (s.pickup, s.delivery)
    ) or any(v.start_late != LATE for v in kw["vehicle_types"])
    if data.has_time_windows() != windowed:
        return "has_time_windows"
    return None


def run_data(shard, ctx, pv):
    good = base()
    assert valid_instance(good)
    good_kw = parts(pv, good)
    source = pv.ProblemData(**good_kw)
    first = shard["first"]
    later = range(first + 1, len(CHANGES))
    owner = dict(locs="locations", clients="clients", depots="depots",
                 groups="groups", ships="shipments", vts="vehicle_types",
                 dist="distance_matrices", dur="duration_matrices")
    for num in range(shard["most"]):
        for rest in itertools.combinations(later, num):
            sp = copy.deepcopy(good)
            try:
                for k in (first, *rest):
                    CHANGES[k](sp)
            except (IndexError, KeyError):
                continue  # changes something removed by an earlier change
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += 2

            def case():
                return [CHANGES[k].label for k in (first, *rest)]

            valid = valid_instance(sp)
            kw = parts(pv, sp)
            ctx.note(case)
            data, exc = raises(lambda: pv.ProblemData(**kw))
            if valid != (exc is None):
                ctx.fail(case(), f"valid={valid}, but got {exc}")
                continue
            if data is not None:
                ctx.count("accepted")
                bad = same(data, kw)
                if bad:
                    ctx.fail(case(), bad)
            # The same, replacing the changed parts of the valid instance.
            new = {
                owner[key]: kw[owner[key]] for key in sp if sp[key] != good[key]
            }
            data, exc = raises(lambda: source.replace(**new))
            if valid != (exc is None):
                ctx.fail(case(), f"replace: valid={valid}, but got {exc}")
            elif data is not None:
                bad = same(data, kw)
                if bad:
                    ctx.fail(case(), f"replace: {bad}")
    bad = same(source, good_kw)
    ctx.check(bad is None, "source after replace", bad)
    ctx.sample(dict(changes=case()))


def run_immutable(shard, ctx, pv):
    """Nothing reachable from an instance can change it."""
    kw = parts(pv, base())
    data = pv.ProblemData(**kw)
    want = parts(pv, base())

    def unchanged(what):
        ctx.states += 1
        ctx.traces += 1
        bad = same(data, want)
        ctx.check(bad is None, what, f"changed the instance: {bad}")

    # The given arguments.
    for key, val in kw.items():
        if key.endswith("matrices"):
            val[0][0, 1] += 99
            unchanged(f"writing to the given {key}")
        if key == "groups":
            val[0].add_client(0)
            unchanged("adding to the given group")
        val.clear()
        unchanged(f"clearing the given {key}")

    # What the accessors return, and attributes of all of it.
    seen = [data]
    for key in want:
        lst = getattr(data, key)()
        for k in range(len(lst)):
            seen.append(lst[k])
            one = {"distance_matrices": "distance_matrix",
                   "duration_matrices": "duration_matrix"}.get(key, key[:-1])
            seen.append(getattr(data, one)(k))
        if isinstance(lst, list):
            lst.clear()
        unchanged(f"clearing {key}()")
    for obj in list(seen):
        if isinstance(obj, pv.Shipment):
            seen += [obj.pickup, obj.delivery]
    for obj in seen:
        if hasattr(obj, "flags"):  # a matrix
            try:
                obj[0, 1] = 77
            except (ValueError, TypeError):
                pass
            unchanged("writing to a returned matrix")
            continue
        if isinstance(obj, pv.ClientGroup):
            try:
                obj.add_client(1)
            except (ValueError, AttributeError, TypeError):
                pass
            unchanged("adding to a returned group")
        for name in dir(obj):
            if name.startswith("__"):
                continue
            old = getattr(obj, name)
            if callable(old) and not isinstance(obj, pv.ProblemData):
                continue
            if isinstance(old, list):
                old.append(5)
            try:
                setattr(obj, name, 5 if not isinstance(old, str) else "z")
            except (AttributeError, TypeError):
                pass
            else:
                ctx.fail(f"{type(obj).__name__}.{name}", "could be assigned")
            unchanged(f"assigning {type(obj).__name__}.{name}")
    ctx.sample(dict(objects=len(seen)))


# Per class: required arguments, and (value, default) of the optional ones.
OPTIONAL = dict(
    Location=(dict(x=1.5, y=-2.25), dict(name=("n", ""))),
    Depot=(
        dict(location=3),
        dict(tw_early=(4, 0), tw_late=(9, LATE), service_duration=(2, 0),
             name=("n", "")),
    ),
    Client=(
        dict(location=3),
        dict(delivery=([4], []), pickup=([5], []), service_duration=(2, 0),
             tw_early=(4, 0), tw_late=(9, LATE), release_time=(6, 0),
             prize=(8, 0), required=(False, True), group=(1, None),
             name=("n", "")),
    ),
    ClientGroup=(
        {}, dict(clients=([2, 1], []), required=(False, True),
                 name=("n", "")),
    ),
    Shipment=(
        dict(pickup_location=3, delivery_location=4),
        dict(pickup_tw_early=(4, 0), pickup_tw_late=(9, LATE),
             pickup_service_duration=(2, 0), delivery_tw_early=(5, 0),
             delivery_tw_late=(11, LATE), delivery_service_duration=(3, 0),
             amount=([7], []), prize=(8, 0), required=(False, True),
             name=("n", "")),
    ),
)
# Measures, of which the values may be as large as integers of 64 bits.
MEASURES = dict(
    Depot=["tw_early", "tw_late", "service_duration"],
    Client=["delivery", "pickup", "service_duration", "tw_early", "tw_late",
            "release_time", "prize"],
    Shipment=["pickup_tw_early", "pickup_tw_late", "pickup_service_duration",
              "delivery_tw_early", "delivery_tw_late",
              "delivery_service_duration", "amount", "prize"],
    VehicleType=["capacity", "fixed_cost", "tw_early", "tw_late",
                 "shift_duration", "max_distance", "unit_distance_cost",
                 "unit_duration_cost", "start_late", "initial_load",
                 "max_overtime", "unit_overtime_cost"],
)


def attribute(name):
    for part in ("pickup", "delivery"):
        if name.startswith(part + "_"):
            return part + "." + name[len(part) + 1:]
    return name


def run_omitted(shard, ctx, pv):
    for cls, (req, opt) in OPTIONAL.items():
        for size in range(len(opt) + 1):
            for names in itertools.combinations(opt, size):
                kw = dict(req, **{n: opt[n][0] for n in names})
                want = dict(req)
                for n, (val, default) in opt.items():
                    want[n] = val if n in names else default
                if cls == "Client":  # loads are padded to the same size
                    d, p = want["delivery"], want["pickup"]
                    want.update(delivery=pad(d, p), pickup=pad(p, d))
                judge(
                    ctx, (cls, sorted(kw)),
                    lambda: getattr(pv, cls)(**kw), True,
                    {attribute(k): v for k, v in want.items()},
                )
    ctx.sample(dict(cls=cls, given=names))


def run_large(shard, ctx, pv):
    """Numbers around the limits of what fits are kept or rejected."""
    for cls, names in MEASURES.items():
        req = OPTIONAL[cls][0] if cls in OPTIONAL else {}
        for name in names:
            many = name in ("delivery", "pickup", "amount", "capacity",
                            "initial_load")
            for val in (
                2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 - 1, 2**53,
                2**53 + 1, 2**62, 2**63 - 2, 2**63 - 1, 2**63, 2**63 + 5,
                2**64 - 1, 2**64, 2**64 + 5, 2**70, -1, -2**31, -2**63,
                -2**63 - 1, -2**64 + 5,
            ):
                ctx.states += 1
                ctx.traces += 1
                kw = dict(req, **{name: [val] if many else val})
                if name == "initial_load":
                    kw["capacity"] = [LATE]
                try:
                    obj = getattr(pv, cls)(**kw)
                except Exception:
                    ctx.check(not 0 <= val <= LATE, (cls, kw),
                              "valid, but rejected")
                    continue
                got = obj
                for part in attribute(name).split("."):
                    got = getattr(got, part)
                got = list(got)[0] if many else got
                ctx.check(got == val, (cls, kw), f"became {got}")
    ctx.sample(dict(cls=cls, given=kw))


def run_layout(shard, ctx, pv):
    """Matrices in any memory layout and of any number type."""
    import numpy as np

    def layouts(arr):
        n = len(arr)
        yield "c", arr.copy(order="C"), None
        yield "fortran", np.asfortranarray(arr), None
        yield "transposed", arr.T.copy().T, None
        big = np.full((2 * n + 1, 3 * n + 2), 77, dtype=arr.dtype)
        big[1::2, 2::3] = arr
        yield "strided", big[1::2, 2::3], big
        rev = arr[::-1, ::-1].copy()
        yield "reversed", rev[::-1, ::-1], rev
        wide = np.full((n, n + 3), 77, dtype=arr.dtype)
        wide[:, 1:n + 1] = arr
        yield "columns", wide[:, 1:n + 1], wide
        fixed = arr.copy()
        fixed.flags.writeable = False
        yield "readonly", fixed, None
        yield "swapped", arr.astype(arr.dtype.newbyteorder()), None

    for n in range(1, 5):
        for kind in ("int64", "int32", "int16", "uint8", "uint64", "float64",
                     "float32"):
            mats = []
            for q in range(4):
                mat = np.array(
                    [[0 if i == j else 50 * q + 9 * i + 2 * j + 1
                      for j in range(n)] for i in range(n)], dtype=kind,
                )
                mats.append((mat.astype(int).tolist(), list(layouts(mat))))
            for pick in range(len(mats[0][1])):
                chosen = [m[1][pick] for m in mats]
                label = chosen[0][0]
                ctx.states += 1
                ctx.traces += 1
                case = ("matrices", n, kind, label)
                try:
                    data = pv.ProblemData(
                        [pv.Location(i, i) for i in range(n)], [],
                        [pv.Depot(0)], [pv.VehicleType()],
                        [c[1] for c in chosen[:2]],
                        [c[1] for c in chosen[2:]],
                    )
                except Exception as exc:
                    ctx.fail(case, f"rejected: {exc!r}")
                    continue
                for _, arr, base in chosen:  # later changes do not matter
                    for target in (arr, base):
                        if target is not None and target.flags.writeable:
                            target[...] = 99
                for q in range(2):
                    for name, got, want in (
                        ("distance", data.distance_matrix(q), mats[q][0]),
                        ("duration", data.duration_matrix(q), mats[q + 2][0]),
                        ("distance", data.distance_matrices()[q], mats[q][0]),
                        ("duration", data.duration_matrices()[q],
                         mats[q + 2][0]),
                    ):
                        ctx.equal(got.tolist(), want, case, f"{name} {q}")
                        ctx.equal((got.dtype.kind, got.flags.writeable),
                                  ("i", False), case, f"kind of {name} {q}")
                again = data.replace(
                    distance_matrices=data.duration_matrices(),
                    duration_matrices=[
                        m.T for m in data.distance_matrices()
                    ],
                )
                for q in range(2):
                    ctx.equal(again.distance_matrix(q).tolist(),
                              mats[q + 2][0], case, "replaced distance")
                    ctx.equal(
                        again.duration_matrix(q).tolist(),
                        [list(r) for r in zip(*mats[q][0])], case,
                        "replaced duration",
                    )
    ctx.sample(dict(size=n, kind=kind, layout=label))
