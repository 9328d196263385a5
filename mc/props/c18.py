"""C18: pickling, copying and comparing preserve everything observable."""

import copy
import itertools
import pickle

from mc import families as F
from mc import model as M
from mc.props import c17

ID = "C18"
RULE = (
    "every public accessor (by introspection, recursively) of the original "
    "and of its unpickled (all binary protocols), copied and deep-copied "
    "twins: value objects with every pair (thorough: triple) of non-default "
    "attributes, all pairs of them compared and hashed; problem data with "
    "<= 2 (thorough: 3) changes; every route and solution of every instance "
    "with <= 2 (thorough: 3) interacting features, all pairs of them, all "
    "route orders, and equal visits under different instances"
)
ASSUMPTIONS = ["at most 3 clients, 2 shipments, 4 vehicles of 2 types"]
PROTOCOLS = range(2, pickle.HIGHEST_PROTOCOL + 1)


def shards(tier):
    quick = tier == "quick"
    out = []
    for name in ("Location", "Depot", "Client", "ClientGroup", "Shipment",
                 "ShipmentStep", "VehicleType", "Activity",
                 "PiecewiseLinearFunction", "DynamicBitset"):
        out.append(dict(kind="value", cls=name, order=2 if quick else 3))
    for chunk in F.chunks(list(range(len(c17.CHANGES) + 1)), 16):
        out.append(dict(kind="data", firsts=chunk, most=2 if quick else 3))
    order = 2 if quick else 3
    for kw in (
        dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2), dict(nc=0, ns=2, nv=1),
        dict(nc=2, ns=1, nv=1),
    ):
        for chunk in F.chunks(list(F.subsets(order)), 40):
            out.append(dict(kind="sols", kw=kw, feats=chunk))
    for chunk in F.chunks(list(F.subsets(order)), 16):
        out.append(dict(kind="cross", feats=chunk))
    out.append(dict(kind="params"))
    return out


# -- observation ------------------------------------------------------------

_names = {}
SKIP = {"set", "reset", "replace", "make_random"}


def accessors(cls):
    """Public accessors without arguments of a class."""
    if cls not in _names:
        _names[cls] = [
            n for n in dir(cls) if not n.startswith("_") and n not in SKIP
        ]
    return _names[cls]


def observe(obj):
    """Everything that can be seen of an object, as comparable plain data."""
    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        return obj
    if isinstance(obj, (list, tuple)):
        return [observe(x) for x in obj]
    if isinstance(obj, dict):
        return {k: observe(v) for k, v in obj.items()}
    cls = type(obj)
    if cls.__module__ == "numpy":
        return [cls.__name__, obj.tolist(), str(obj.dtype)]
    if hasattr(cls, "__members__"):  # enumeration
        return int(obj)
    seen = {"class": cls.__name__}
    for name in accessors(cls):
        val = getattr(obj, name)
        if callable(val):
            try:
                val = val()
            except TypeError:  # needs arguments
                continue
        seen[name] = observe(val)
    if cls.__name__ == "DynamicBitset":
        seen["items"] = [obj[i] for i in range(len(obj))]
    if cls.__name__ == "ProblemData":
        for kind, num in (
            ("location", obj.num_locations), ("client", obj.num_clients),
            ("depot", obj.num_depots), ("group", obj.num_groups),
            ("shipment", obj.num_shipments),
            ("vehicle_type", obj.num_vehicle_types),
            ("distance_matrix", obj.num_profiles),
            ("duration_matrix", obj.num_profiles),
        ):
            seen[kind] = [observe(getattr(obj, kind)(i)) for i in range(num)]
    if hasattr(cls, "__iter__") and cls.__name__ != "DynamicBitset":
        seen["iter"] = [observe(x) for x in obj]
    if hasattr(cls, "__len__"):
        seen["len"] = len(obj)
    if cls.__str__ is not object.__str__:
        text = str(obj)
        if " object at 0x" not in text:
            seen["str"] = text
    return seen


def twins(obj):
    yield "copy", copy.copy(obj)
    yield "deepcopy", copy.deepcopy(obj)
    for proto in PROTOCOLS:
        yield f"pickle{proto}", pickle.loads(pickle.dumps(obj, proto))


def check_twins(ctx, obj, case, hashed, quick=False):
    seen = observe(obj)
    todo = (
        [("pickle", pickle.loads(pickle.dumps(obj)))] if quick else twins(obj)
    )
    for how, twin in todo:
        ctx.transitions += 1
        ctx.traces += 1
        got = observe(twin)
        if got != seen:
            ctx.fail(case, f"{how} changed {diff(seen, got)}")
        if not (twin == obj and obj == twin) or twin != obj:
            ctx.fail(case, f"{how} is not equal to the original")
        if hashed and hash(twin) != hash(obj):
            ctx.fail(case, f"{how} hashes differently")
    if observe(obj) != seen:
        ctx.fail(case, "the original changed")
    return seen


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for key in a:
            if a[key] != b.get(key):
                return diff(a[key], b.get(key), f"{path}.{key}")
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}[{k}]")
    return f"{path}: {a!r} became {b!r}"


def check_pairs(ctx, objs, keys, hashed):
    """Equality is exactly equality of keys; equal objects hash equally."""
    for i, j in itertools.product(range(len(objs)), repeat=2):
        ctx.transitions += 1
        same = keys[i] == keys[j]
        if (objs[i] == objs[j]) != same or (objs[i] != objs[j]) == same:
            ctx.fail(
                [repr(keys[i])[:700], repr(keys[j])[:700]],
                f"equality is {objs[i] == objs[j]}, want {same}",
            )
        if hashed and same and hash(objs[i]) != hash(objs[j]):
            ctx.fail(repr(keys[i])[:700], "equal objects hash differently")
    for obj in objs[:3]:
        for other in (None, 1, "a", object(), [], objs):
            if obj == other:
                ctx.fail(repr(keys[0])[:700], f"equal to {other!r}")


# -- value objects ----------------------------------------------------------

L = 2**63 - 1
ARGS = dict(
    Location=(dict(x=1.0, y=2.0),
              dict(x=[0.0, -3.5, 1e9], y=[0.0, 0.1, -7.0],
                   name=["a", "ünï", "x" * 99, "a b"])),
    Depot=(dict(location=1),
           dict(location=[0, 2], tw_early=[3], tw_late=[9, L - 1],
                service_duration=[4], name=["d", "e"])),
    Client=(dict(location=1),
            dict(location=[0, 5], delivery=[[0], [3], [1, 2], [2, 1]],
                 pickup=[[0], [3], [1, 2], [2, 1]], service_duration=[2],
                 tw_early=[3], tw_late=[9, 20], release_time=[4, 1],
                 prize=[6], required=[False], group=[0, 1, 7],
                 name=["c", "d"])),
    ClientGroup=(dict(),
                 dict(clients=[[1], [1, 2], [2, 1], [0, 4, 3]],
                      required=[False], name=["g", "h"])),
    Shipment=(dict(pickup_location=1, delivery_location=2),
              dict(pickup_location=[2, 5], delivery_location=[1, 6],
                   pickup_tw_early=[3], pickup_tw_late=[9],
                   pickup_service_duration=[1], delivery_tw_early=[3],
                   delivery_tw_late=[9], delivery_service_duration=[1],
                   amount=[[0], [1, 2], [2, 1]], prize=[4],
                   required=[False], name=["s", "t"])),
    ShipmentStep=(dict(location=1, tw_early=0, tw_late=L, service_duration=0),
                  dict(location=[2, 5], tw_early=[3], tw_late=[9],
                       service_duration=[1, 3])),
    VehicleType=(dict(),
                 dict(num_available=[2, 3], capacity=[[0], [9], [9, 8]],
                      start_depot=[1], end_depot=[1], fixed_cost=[5],
                      tw_early=[2], tw_late=[30], shift_duration=[6],
                      max_distance=[7], unit_distance_cost=[0, 3],
                      unit_duration_cost=[3], profile=[1], start_late=[2, 11],
                      initial_load=[[0], [0, 0]],
                      reload_depots=[[1], [1, 0], [0, 1]], max_reloads=[0, 4],
                      max_overtime=[6], unit_overtime_cost=[7],
                      name=["v", "w"])),
)


def values(pv, cls, order):
    """Objects with up to `order` attributes off their base values."""
    if cls == "Activity":
        types = [pv.ActivityType.CLIENT, pv.ActivityType.DEPOT,
                 pv.ActivityType.PICKUP, pv.ActivityType.DELIVERY]
        for t, idx in itertools.product(types, (0, 1, 2, 255, 1 << 19)):
            yield pv.Activity(t, idx)
        return
    if cls == "PiecewiseLinearFunction":
        for bps in ([], [0], [3], [-2, 3], [0, 3]):
            for segs in itertools.product(
                [(0, 0), (1, 2), (-3, 2), (2, 1)], repeat=len(bps) + 1
            ):
                yield pv.PiecewiseLinearFunction(bps, list(segs))
        return
    if cls == "DynamicBitset":
        for num in (0, 1, 64, 65, 130):
            marks = [m for m in (0, 1, 63, 64, 127, 128) if m < num]
            for size in range(len(marks) + 1):
                for chosen in itertools.combinations(marks, size):
                    bits = pv.DynamicBitset(num)
                    for m in chosen:
                        bits[m] = True
                    yield bits
        return
    base, args = ARGS[cls]
    for num in range(order + 1):
        for names in itertools.combinations(args, num):
            for vals in itertools.product(*(args[n] for n in names)):
                try:
                    yield getattr(pv, cls)(**{**base, **dict(zip(names, vals))})
                except ValueError:
                    continue


def run(shard, ctx):
    import pyvrp as pv

    globals()["run_" + shard["kind"]](shard, ctx, pv)


def run_value(shard, ctx, pv):
    cls = shard["cls"]
    hashed = cls == "Activity"
    objs = list(values(pv, cls, shard["order"]))
    keys = []
    for obj in objs:
        ctx.states += 1
        keys.append(check_twins(ctx, obj, cls + str(obj), hashed))
    if len(objs) <= 1500:
        check_pairs(ctx, objs, keys, hashed)
    else:  # all objects against all with fewer changes
        few = list(values(pv, cls, shard["order"] - 1))
        few_keys = [observe(x) for x in few]
        for obj, key in zip(objs, keys):
            for other, other_key in zip(few, few_keys):
                ctx.transitions += 1
                if (obj == other) != (key == other_key):
                    ctx.fail([repr(key), repr(other_key)], "equality is wrong")
    if cls == "ClientGroup":  # a copy is independent
        for obj, key in zip(objs, keys):
            for how, twin in twins(obj):
                twin.add_client(77)
                ctx.equal(observe(obj), key, key, f"changing a {how}")
    if cls == "DynamicBitset":
        for obj, key in zip(objs, keys):
            for how, twin in twins(obj):
                twin.set()
                ctx.equal(observe(obj), key, str(key), f"changing a {how}")
    ctx.sample(dict(cls=cls, num=len(objs)))


# -- problem data -----------------------------------------------------------


def run_data(shard, ctx, pv):
    objs, keys = [], []
    for spec in data_specs(shard["firsts"], shard["most"]):
        data, exc = c17.raises(lambda: pv.ProblemData(**c17.parts(pv, spec)))
        if exc is not None:
            continue
        ctx.states += 1
        case = repr(spec)
        key = check_twins(ctx, data, case, False,
                          quick=len(objs) > 60)
        ctx.equal(data.replace(), data, case, "replace()")
        objs.append(data)
        keys.append(key)
    kw = c17.parts(pv, c17.base())
    data = pv.ProblemData(**kw)
    for name in ("distance_matrices", "duration_matrices"):
        mats = kw[name]
        for k, i, j in itertools.product(range(len(mats)), range(5), range(5)):
            if i != j:
                new = [m.copy() for m in mats]
                new[k][i, j] += 1
                other = pv.ProblemData(**{**kw, name: new})
                ctx.transitions += 1
                ctx.check(other != data, (name, k, i, j), "equal data")
                twin = pickle.loads(pickle.dumps(other))
                ctx.check(twin == other != data, (name, k, i, j), "pickle")
    step = max(1, len(objs) // 250)
    check_pairs(ctx, objs[::step], keys[::step], False)
    ctx.sample(dict(num=len(objs)))


def data_specs(firsts, most):
    for first in firsts:
        if first == len(c17.CHANGES):
            yield c17.base()
            continue
        for num in range(most):
            for rest in itertools.combinations(
                range(first + 1, len(c17.CHANGES)), num
            ):
                spec = c17.base()
                try:
                    for k in (first, *rest):
                        c17.CHANGES[k](spec)
                except (IndexError, KeyError, TypeError):
                    continue
                yield spec


# -- routes and solutions ---------------------------------------------------


def run_sols(shard, ctx, pv):
    for feats in shard["feats"]:
        sp = M.legalise(F.make(feats, **shard["kw"]))
        data = M.build(sp)
        # routes
        objs, keys = [], []
        for vt in range(len(sp["vtypes"])):
            for acts in F.routes(sp, vt, max_len=3, max_reload=1):
                route = F.real_route(pv, data, vt, acts)
                ctx.states += 1
                case = dict(feats=feats, kw=shard["kw"], vt=vt, acts=acts)
                check_twins(ctx, route, case, False, quick=len(objs) > 20)
                for proto in PROTOCOLS:
                    for act in route.schedule():
                        twin = pickle.loads(pickle.dumps(act, proto))
                        ctx.equal(observe(twin), observe(act), case, "stop")
                objs.append(route)
                keys.append((vt, acts))
        step = max(1, len(objs) // 120)
        check_pairs(ctx, objs[::step], keys[::step], False)

        # solutions
        objs, keys = [], []
        for routes in F.solutions(sp, max_reload=1 if len(feats) < 2 else 0):
            sol = F.real_solution(pv, data, routes)
            ctx.states += 1
            case = dict(feats=feats, kw=shard["kw"], routes=routes)
            if len(objs) % 8 == 0:
                check_twins(ctx, sol, case, True, quick=len(objs) > 40)
            twin = pickle.loads(pickle.dumps(sol))
            if not shallow(sol) == shallow(twin):
                ctx.fail(case, diff(shallow(sol), shallow(twin)))
            key = sorted((k, tuple(a)) for k, a in routes)
            for perm in itertools.permutations(routes):
                other = F.real_solution(pv, data, list(perm))
                ctx.transitions += 1
                if other != sol or hash(other) != hash(sol):
                    ctx.fail(case, f"differs from route order {perm}")
            objs.append(sol)
            keys.append(key)
        step = max(1, len(objs) // 200)
        check_pairs(ctx, objs[::step], keys[::step], True)
    ctx.sample(dict(feats=feats, kw=shard["kw"]))


def shallow(sol):
    seen = {}
    for name in accessors(type(sol)):
        if name not in ("routes", "unplanned"):
            seen[name] = getattr(sol, name)()
    seen["unplanned"] = [str(a) for a in sol.unplanned()]
    seen["routes"] = [
        (r.vehicle_type(), [str(a) for a in r], r.duration(), r.distance(),
         r.fixed_vehicle_cost(), r.excess_load(), r.slack())
        for r in sol.routes()
    ]
    seen["hash"] = hash(sol)
    return seen


def run_cross(shard, ctx, pv):
    """Equal solutions of different instances hash equally, too."""
    kw = dict(nc=2, ns=1, nv=2)
    plain = M.legalise(F.make({}, **kw))
    for feats in shard["feats"]:
        sp = M.legalise(F.make(feats, **kw))
        one, two = M.build(plain), M.build(sp)
        for routes in F.solutions(plain):
            if not M.legal_solution(sp, routes):
                continue
            a = F.real_solution(pv, one, routes)
            b = F.real_solution(pv, two, routes)
            ctx.states += 1
            ctx.traces += 1
            case = dict(feats=feats, routes=routes)
            ctx.equal(a == b, b == a, case, "symmetry")
            if a == b and hash(a) != hash(b):
                ctx.fail(case, "equal solutions hash differently")
    ctx.sample(dict(feats=feats))


def run_params(shard, ctx, pv):
    """Parameter objects: equal exactly when all their fields are."""
    import dataclasses

    from pyvrp.search import NeighbourhoodParams
    from pyvrp.search import PerturbationParams

    def variants(cls, names):
        base = cls()
        out = [base]
        for num in (1, 2):
            for chosen in itertools.combinations(names, num):
                try:
                    kw = {}
                    for n in chosen:
                        old = getattr(base, n)
                        kw[n] = (not old) if isinstance(old, bool) else old + 1
                    out.append(cls(**{**fields(base, names), **kw}))
                except (ValueError, TypeError):
                    continue
        return out

    def fields(obj, names):
        return {n: getattr(obj, n) for n in names}

    for cls in (pv.IteratedLocalSearchParams, pv.PenaltyParams,
                NeighbourhoodParams, PerturbationParams):
        if dataclasses.is_dataclass(cls):
            names = [f.name for f in dataclasses.fields(cls) if f.init]
        else:
            names = [n for n in dir(cls) if not n.startswith("_")]
        objs = variants(cls, names)
        keys = [fields(o, names) for o in objs]
        for obj, key in zip(objs, keys):
            ctx.states += 1
            ctx.traces += 1
            ctx.equal(cls(**key), obj, str(key), "same fields")
        check_pairs(ctx, objs, keys, False)
    ctx.sample("parameter classes")
