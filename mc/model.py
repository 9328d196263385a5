"""Reference semantics of PyVRP instances, routes and solutions.

Everything here is derived from the documentation, by plain step-by-step
execution: no segments, no concatenation, no caching. Instances are plain
dicts ("specs"); `build` turns a spec into a real ProblemData object, while
the reference only ever looks at the spec.

Activities are written as strings: "C3" client, "D1" depot (reload), "L0"
pickup and "U0" delivery of a shipment.
"""

INT_MAX = 2**63 - 1
LATE = INT_MAX  # default end of time windows


def client(loc, d=(), p=(), s=0, e=0, l=LATE, r=0, prize=0, req=True, g=None):
    return dict(loc=loc, d=list(d), p=list(p), s=s, e=e, l=l, r=r,
                prize=prize, req=req, g=g)


def depot(loc, e=0, l=LATE, s=0):
    return dict(loc=loc, e=e, l=l, s=s)


def shipment(ploc, dloc, amt=(), pe=0, pl=LATE, ps=0, de=0, dl=LATE, ds=0,
             prize=0, req=True):
    return dict(ploc=ploc, dloc=dloc, amt=list(amt), pe=pe, pl=pl, ps=ps,
                de=de, dl=dl, ds=ds, prize=prize, req=req)


def vtype(num=1, cap=(), start=0, end=0, fixed=0, e=0, l=LATE, shift=LATE,
          maxdist=LATE, ud=1, ut=0, prof=0, sl=None, init=(), reload=(),
          maxre=None, ot=0, uo=0):
    return dict(num=num, cap=list(cap), start=start, end=end, fixed=fixed,
                e=e, l=l, shift=shift, maxdist=maxdist, ud=ud, ut=ut,
                prof=prof, sl=sl, init=list(init), reload=list(reload),
                maxre=maxre, ot=ot, uo=uo)


def spec(dist, dur, depots, clients, vtypes, groups=(), ships=()):
    """dist and dur are lists of matrices (nested lists), one per profile."""
    return dict(dist=dist, dur=dur, depots=depots, clients=clients,
                vtypes=vtypes, groups=list(groups), ships=list(ships))


def legalise(sp):
    """Clips values that no legal instance can have, in place."""
    for c in sp["clients"]:
        c["l"] = max(c["l"], c["e"])
        c["r"] = min(c["r"], c["l"])
    for v in sp["vtypes"]:
        v["l"] = max(v["l"], v["e"])
        if v["sl"] is not None:
            v["sl"] = min(max(v["sl"], v["e"]), v["l"])
        v["init"] = [min(x, get(v["cap"], k)) for k, x in enumerate(v["init"])]
    for s in sp["ships"]:
        s["dl"] = max(s["dl"], s["pe"])
    return sp


def build(sp):
    legalise(sp)
    import numpy as np
    import pyvrp as pv

    num = len(sp["dist"][0])
    groups = [
        pv.ClientGroup(g["clients"], required=g["req"]) for g in sp["groups"]
    ]
    return pv.ProblemData(
        locations=[pv.Location(i, i * i % 7) for i in range(num)],
        clients=[
            pv.Client(
                location=c["loc"], delivery=c["d"], pickup=c["p"],
                service_duration=c["s"], tw_early=c["e"], tw_late=c["l"],
                release_time=c["r"], prize=c["prize"], required=c["req"],
                group=c["g"],
            )
            for c in sp["clients"]
        ],
        depots=[
            pv.Depot(location=d["loc"], tw_early=d["e"], tw_late=d["l"],
                     service_duration=d["s"])
            for d in sp["depots"]
        ],
        vehicle_types=[build_vtype(v) for v in sp["vtypes"]],
        distance_matrices=[np.array(m, dtype=np.int64) for m in sp["dist"]],
        duration_matrices=[np.array(m, dtype=np.int64) for m in sp["dur"]],
        groups=groups,
        shipments=[
            pv.Shipment(
                pickup_location=s["ploc"], delivery_location=s["dloc"],
                pickup_tw_early=s["pe"], pickup_tw_late=s["pl"],
                pickup_service_duration=s["ps"], delivery_tw_early=s["de"],
                delivery_tw_late=s["dl"], delivery_service_duration=s["ds"],
                amount=s["amt"], prize=s["prize"], required=s["req"],
            )
            for s in sp["ships"]
        ],
    )


def build_vtype(v):
    import pyvrp as pv

    kwargs = {} if v["maxre"] is None else {"max_reloads": v["maxre"]}
    return pv.VehicleType(
        num_available=v["num"], capacity=v["cap"], start_depot=v["start"],
        end_depot=v["end"], fixed_cost=v["fixed"], tw_early=v["e"],
        tw_late=v["l"], shift_duration=v["shift"], max_distance=v["maxdist"],
        unit_distance_cost=v["ud"], unit_duration_cost=v["ut"],
        profile=v["prof"], start_late=v["sl"], initial_load=v["init"],
        reload_depots=v["reload"], max_overtime=v["ot"],
        unit_overtime_cost=v["uo"], **kwargs,
    )


def num_dims(sp):
    for v in sp["vtypes"]:
        return max(len(v["cap"]), len(v["init"]))
    return 0


def get(vec, dim):
    return vec[dim] if dim < len(vec) else 0


def max_trips(v):
    if not v["reload"]:
        return 1
    return INT_MAX if v["maxre"] is None else v["maxre"] + 1


def where(sp, act):
    kind, idx = act[0], int(act[1:])
    if kind == "C":
        return sp["clients"][idx]["loc"]
    if kind == "D":
        return sp["depots"][idx]["loc"]
    if kind == "L":
        return sp["ships"][idx]["ploc"]
    return sp["ships"][idx]["dloc"]


def stop(sp, act):
    """Returns (location, early, late, service) of the activity."""
    kind, idx = act[0], int(act[1:])
    if kind == "C":
        c = sp["clients"][idx]
        return c["loc"], c["e"], c["l"], c["s"]
    if kind == "D":
        d = sp["depots"][idx]
        return d["loc"], d["e"], d["l"], d["s"]
    s = sp["ships"][idx]
    if kind == "L":
        return s["ploc"], s["pe"], s["pl"], s["ps"]
    return s["dloc"], s["de"], s["dl"], s["ds"]


def trips(acts):
    out = [[]]
    for act in acts:
        if act[0] == "D":
            out.append([])
        else:
            out[-1].append(act)
    return out


def release(sp, trip):
    return max([sp["clients"][int(a[1:])]["r"] for a in trip if a[0] == "C"],
               default=0)


def timeline(sp, vt, acts):
    """The route as a list of (travel, early, late, release, service).

    Each entry describes how long it takes to get to the stop, and the
    restrictions on beginning the activity there. The first and last entries
    are the beginning and ending of the vehicle's shift.
    """
    v = sp["vtypes"][vt]
    dur = sp["dur"][v["prof"]]
    rel = [release(sp, t) for t in trips(acts)]

    loc, early, late, serv = stop(sp, f"D{v['start']}")
    sl = v["l"] if v["sl"] is None else v["sl"]
    # The vehicle's shift begins first, not before the goods of the first trip
    # are released; then the depot is left, for which it must be open.
    out = [(0, v["e"], sl, rel[0], 0), (0, early, late, 0, serv)]
    trip = 0
    for act in acts:
        nxt, early, late, serv = stop(sp, act)
        when = 0
        if act[0] == "D":
            trip += 1
            when = rel[trip]
        out.append((dur[loc][nxt], early, late, when, serv))
        loc = nxt

    nxt, early, late, _ = stop(sp, f"D{v['end']}")
    out.append((dur[loc][nxt], early, late, 0, 0))
    out.append((0, v["e"], v["l"], 0, 0))
    return out


def simulate(line, start):
    """Executes the timeline from the given start: (duration, time warp)."""
    now = start
    waited = warped = 0
    for travel, early, late, rel, serv in line:
        now += travel
        ready = early if early > rel else rel
        if now < ready:
            waited += ready - now
            now = ready
        if now > late:
            warped += now - late
            now = late
        now += serv
    return now - start + warped, warped


def best_start(sp, vt, acts, line=None):
    """Brute force over all integer starting times.

    Returns (start, slack, duration, time warp), where start is the earliest
    time at which time warp is minimal, and duration minimal subject to that.
    """
    v = sp["vtypes"][vt]
    line = line or timeline(sp, vt, acts)
    horizon = 0
    for travel, early, late, rel, serv in line:
        horizon = max(horizon, early, rel, 0 if late > 10**6 else late)
    horizon += 2 + sum(x[0] + x[4] for x in line)

    best = None
    for start in range(v["e"], horizon):
        dur, warp = simulate(line, start)
        key = (warp, dur)
        if best is None or key < best[0]:
            best = (key, start)
    (warp, dur), start = best

    slack = 0
    while start + slack + 1 < horizon:
        if simulate(line, start + slack + 1) != (dur, warp):
            break
        slack += 1
    else:
        slack = None  # unbounded
    return start, slack, dur, warp


def distance(sp, vt, acts):
    v = sp["vtypes"][vt]
    mat = sp["dist"][v["prof"]]
    total, loc = 0, sp["depots"][v["start"]]["loc"]
    for act in acts:
        nxt = where(sp, act)
        total += mat[loc][nxt]
        loc = nxt
    return total + mat[loc][sp["depots"][v["end"]]["loc"]]


def loads(sp, vt, acts, dim):
    """Returns (delivered, picked up, excess load) in the given dimension."""
    v = sp["vtypes"][vt]
    cap = get(v["cap"], dim)
    deliv = excess = 0
    pick = get(v["init"], dim)
    for num, trip in enumerate(trips(acts)):
        now = get(v["init"], dim) if num == 0 else 0
        for act in trip:
            if act[0] == "C":
                now += get(sp["clients"][int(act[1:])]["d"], dim)
        peak = now
        for act in trip:
            idx = int(act[1:])
            if act[0] == "C":
                c = sp["clients"][idx]
                now += get(c["p"], dim) - get(c["d"], dim)
                deliv += get(c["d"], dim)
                pick += get(c["p"], dim)
            elif act[0] == "L":
                now += get(sp["ships"][idx]["amt"], dim)
            else:
                now -= get(sp["ships"][idx]["amt"], dim)
            peak = max(peak, now)
        excess += max(0, peak - cap)
    return deliv, pick, excess


def prizes(sp, acts):
    total = 0
    for act in acts:
        idx = int(act[1:])
        if act[0] == "C":
            total += sp["clients"][idx]["prize"]
        elif act[0] == "L":
            total += sp["ships"][idx]["prize"]
    return total


def evaluate(sp, vt, acts):
    """All statistics of a route, by execution."""
    v = sp["vtypes"][vt]
    line = timeline(sp, vt, acts)
    start, slack, dur, warp = best_start(sp, vt, acts, line)
    dist = distance(sp, vt, acts)
    ld = [loads(sp, vt, acts, dim) for dim in range(num_dims(sp))]
    maxdur = min(v["shift"] + v["ot"], INT_MAX)
    overtime = max(0, dur - v["shift"])
    travel = sum(x[0] for x in line)
    service = sum(x[4] for x in line)
    return dict(
        start=start,
        slack=slack,
        duration=dur,
        time_warp=warp + max(0, dur - warp - maxdur),
        overtime=overtime,
        travel=travel,
        service=service,
        wait=dur - travel - service,
        distance=dist,
        excess_distance=max(0, dist - v["maxdist"]),
        delivery=[x[0] for x in ld],
        pickup=[x[1] for x in ld],
        excess_load=[x[2] for x in ld],
        distance_cost=v["ud"] * dist,
        duration_cost=v["ut"] * dur + v["uo"] * overtime,
        fixed=v["fixed"],
        prizes=prizes(sp, acts),
        release=line[0][3],
        empty=not any(a[0] in "CL" for a in acts),
    )


def trunc(x):
    return int(x)


def route_cost(stats, pen):
    """Penalised cost of a route; pen is (load penalties, tw, dist)."""
    if stats["empty"]:
        return 0
    cost = stats["distance_cost"] + stats["duration_cost"] + stats["fixed"]
    for ex, unit in zip(stats["excess_load"], pen[0]):
        cost += trunc(ex * unit)
    cost += trunc(stats["time_warp"] * pen[1])
    cost += trunc(stats["excess_distance"] * pen[2])
    return cost


def total_prizes(sp):
    return sum(c["prize"] for c in sp["clients"]) + sum(
        s["prize"] for s in sp["ships"]
    )


def legal_route(sp, vt, acts):
    """Whether the activities form a structurally legal route."""
    v = sp["vtypes"][vt]
    if sum(a[0] == "D" for a in acts) + 1 > max_trips(v):
        return False
    on, seen = set(), set()
    for act in acts:
        idx = int(act[1:])
        if act[0] == "D" and on:
            return False
        if act[0] == "L":
            if idx in seen:
                return False
            seen.add(idx)
            on.add(idx)
        if act[0] == "U":
            if idx not in on:
                return False
            on.remove(idx)
    return not on


def route_feasible(stats):
    return (
        stats["time_warp"] == 0
        and stats["excess_distance"] == 0
        and not any(stats["excess_load"])
    )


def schedule(sp, vt, acts, start):
    """Executes the route from the given start, stop by stop.

    Returns a list of (activity, trip, start, end, wait, time warp).
    """
    v = sp["vtypes"][vt]
    dur = sp["dur"][v["prof"]]
    rel = [release(sp, t) for t in trips(acts)]
    sl = v["l"] if v["sl"] is None else v["sl"]

    out = []
    now, trip, loc = start, 0, None
    full = [f"D{v['start']}", *acts, f"D{v['end']}"]
    for pos, act in enumerate(full):
        nxt, early, late, serv = stop(sp, act)
        first, last = pos == 0, pos == len(full) - 1
        if not first:
            now += dur[loc][nxt]
        if act[0] == "D" and not first:
            trip += 1
        if act[0] == "D" and not last:
            # Goods for this trip must have been released, but the vehicle
            # does not wait for that beyond the depot's closing time.
            early = max(early, min(rel[trip], late))
        if first:
            late = min(late, sl)
        if last:
            serv = 0
        wait = max(0, early - now)
        warp = max(0, now - late)
        now += wait - warp
        out.append((act, trip, now, now + serv, wait, warp))
        now += serv
        loc = nxt
    return out


def legal_solution(sp, routes):
    """Whether the list of (type, activities) is a legal solution."""
    if any(not legal_route(sp, k, acts) for k, acts in routes):
        return False
    if any(not any(a[0] in "CL" for a in acts) for _, acts in routes):
        return False
    for k, v in enumerate(sp["vtypes"]):
        if sum(1 for t, _ in routes if t == k) > v["num"]:
            return False
    visits = [a for _, acts in routes for a in acts if a[0] != "D"]
    if len(set(visits)) != len(visits):
        return False
    for g in sp["groups"]:
        if sum(f"C{c}" in visits for c in g["clients"]) > 1:
            return False
    return True


def missing(sp, routes):
    """Numbers of missing required (clients, groups, shipments)."""
    have = {a for _, acts in routes for a in acts}
    return (
        sum(
            c["req"] and f"C{i}" not in have
            for i, c in enumerate(sp["clients"])
        ),
        sum(
            g["req"] and not any(f"C{c}" in have for c in g["clients"])
            for g in sp["groups"]
        ),
        sum(
            s["req"] and f"L{i}" not in have for i, s in enumerate(sp["ships"])
        ),
    )


def solution_cost(sp, routes, pen, cache=None):
    """Penalised cost, by execution; cache may hold route statistics."""
    cost = total_prizes(sp)
    for k, acts in routes:
        key = (k, tuple(acts))
        stats = cache.get(key) if cache is not None else None
        if stats is None:
            stats = evaluate(sp, k, acts)
            if cache is not None:
                cache[key] = stats
        cost += route_cost(stats, pen) - stats["prizes"]
    return cost


def solution_feasible(sp, routes, cache=None):
    if any(missing(sp, routes)):
        return False
    for k, acts in routes:
        key = (k, tuple(acts))
        stats = cache.get(key) if cache is not None else None
        if stats is None:
            stats = evaluate(sp, k, acts)
            if cache is not None:
                cache[key] = stats
        if not route_feasible(stats):
            return False
    return True
