"""C27: plots show what instances, routes, solutions and results contain."""

import itertools
import warnings

from mc import families as F
from mc import model as M
from mc.props.c11 import the_clock

ID = "C27"
RULE = (
    "every instance with <= 2 (thorough: 4) relevant features and 0-3 clients, 0-2 "
    "shipments and 1-3 depots, drawn by each of the instance plots in every "
    "load dimension; every solution of <= 3 visits of instances with <= 2 "
    "(thorough: 4) relevant features, including multi-trip and partial ones, "
    "drawn with and without locations; every route of <= 4 (thorough: 5) visits "
    "and reloads of instances with <= 1 (thorough: 2) features, its "
    "schedule drawn in every load dimension and beyond; every history of <= "
    "3 (thorough: 4) iterations under a controlled clock, with every number "
    "of skipped iterations. The drawn lines, points, bars, areas and arrows "
    "are read back from the axes and compared with those the model computes "
    "from the described instance"
)
ASSUMPTIONS = [
    "colours, sizes and styles are not compared, other than that the trips "
    "of a route share a colour",
    "the whole-instance plot needs a load dimension",
]
TECHNIQUE = (
    "stateless model checking of the real code: exhaustive enumeration of "
    "small instances, routes, solutions and histories, drawn on real axes "
    "and compared to a reference drawing computed by the execution model"
)


def shards(tier):
    quick = tier == "quick"
    out = []
    for kw in (dict(nc=3, ns=0, nv=1, nd=3), dict(nc=2, ns=1, nv=2, nd=2),
               dict(nc=0, ns=2, nv=1, nd=1), dict(nc=0, ns=0, nv=1, nd=1),
               dict(nc=1, ns=0, nv=1, nd=2)):
        # Only these features show in an instance's plots.
        slots = ["cap", "dims", "init", "ctw", "prof", "group", "geo", "stw"]
        feats = list(F.subsets(2 if quick else 4, slots))
        for chunk in F.chunks(feats, 8):
            out.append(dict(kind="instances", kw=kw, feats=chunk))
    # And only these in those of its solutions.
    slots = ["prof", "group", "geo", "ends", "reload"]
    feats = list(F.subsets(2 if quick else 4, slots))
    for kw in (dict(nc=3, ns=0, nv=1), dict(nc=2, ns=1, nv=1),
               dict(nc=2, ns=0, nv=2), dict(nc=1, ns=1, nv=2)):
        for chunk in F.chunks(feats, 16):
            out.append(dict(kind="solutions", kw=kw, feats=chunk,
                            reloads=1 if quick else 2))
    feats = list(F.subsets(1 if quick else 2))
    for kw in (dict(nc=3, ns=0, nv=2), dict(nc=2, ns=1, nv=2),
               dict(nc=0, ns=2, nv=2)):
        for chunk in F.chunks(feats, 16):
            out.append(dict(kind="schedules", kw=kw, feats=chunk,
                            most=4 if quick else 5))
    for first in range(8):
        out.append(dict(kind="results", first=first,
                        depth=3 if quick else 4))
    out.append(dict(kind="many"))
    return out


def run(shard, ctx):
    import matplotlib

    matplotlib.use("Agg")
    # Titles of plots of empty series (averages of nothing) may warn.
    warnings.simplefilter("ignore")
    globals()[shard["kind"]](ctx, shard)


# -- reading back what was drawn --------------------------------------------------


def axes():
    from matplotlib.figure import Figure

    return Figure().add_subplot()


SPARE = []


def spare():
    """Axes emptied for another use: much faster than making new ones."""
    if not SPARE:
        SPARE.append(axes())
    (ax,) = SPARE
    for artist in (*ax.lines, *ax.collections, *ax.patches, *ax.texts):
        artist.remove()
    ax.set_prop_cycle(None)
    return ax


def num(x):
    x = float(x)
    return round(x, 6)


def pts(arr):
    return [(num(a), num(b)) for a, b in arr]


def hidden(label):
    return "" if label.startswith("_") else label


def drawn(ax):
    """What is on the axes: list of (kind, label, coordinates)."""
    from matplotlib.collections import (LineCollection, PathCollection,
                                        PolyCollection)
    from matplotlib.patches import Rectangle
    from matplotlib.text import Annotation

    out = []
    for line in ax.lines:
        out.append(("line", hidden(line.get_label()),
                    pts(line.get_xydata())))
    for coll in ax.collections:
        label = hidden(coll.get_label())
        if isinstance(coll, PathCollection):
            out.append(("dots", label, pts(coll.get_offsets())))
        elif isinstance(coll, LineCollection):
            out.append(("lines", label,
                        [pts(seg) for seg in coll.get_segments()]))
        elif isinstance(coll, PolyCollection):
            verts = [pts(p.vertices) for p in coll.get_paths()]
            out.append(("area", label, verts))
    for patch in ax.patches:
        if isinstance(patch, Rectangle):
            out.append(("bar", "", (num(patch.get_x()), num(patch.get_y()),
                                    num(patch.get_width()),
                                    num(patch.get_height()))))
    for text in ax.texts:
        if isinstance(text, Annotation):
            out.append(("arrow", "", pts([text.xyann, text.xy])))
    return out


def place(loc):
    return float(loc), float(loc * loc % 7)  # see M.build


def norm(items):
    return sorted(items, key=repr)


# -- instances --------------------------------------------------------------------


def want_coordinates(sp):
    return [
        ("dots", "Depot", [place(d["loc"]) for d in sp["depots"]]),
        ("dots", "Clients", [place(c["loc"]) for c in sp["clients"]]),
        ("dots", "Pickups", [place(s["ploc"]) for s in sp["ships"]]),
        ("dots", "Deliveries", [place(s["dloc"]) for s in sp["ships"]]),
    ]


def unordered(items):
    """Scattered dots have no order."""
    return norm((k, lab, sorted(c) if k == "dots" else c)
                for k, lab, c in items)


def want_demands(sp, dim):
    vals = sorted(M.get(c["d"], dim) for c in sp["clients"])
    return [("bar", "", (num(i - 0.4), 0.0, 0.8, num(v)))
            for i, v in enumerate(vals)]


def want_windows(sp):
    vals = sorted((c["e"], c["l"]) for c in sp["clients"])
    return [("bar", "", (num(i - 0.4), num(e), 0.8, num(l - e)))
            for i, (e, l) in enumerate(vals)]


def demand_title(sp, dim):
    vals = [M.get(c["d"], dim) for c in sp["clients"]]
    total = sum(v["num"] for v in sp["vtypes"])
    cap = sum(v["num"] * M.get(v["cap"], dim) for v in sp["vtypes"]) / total
    if not vals or not sum(vals):
        return None
    return (f"Demands (avg. cap = {cap:.2f}, "
            f"{cap / (sum(vals) / len(vals)):.2f} stops/route)")


def instances(ctx, shard):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    from pyvrp import plotting as P

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        for k, v in enumerate(sp["vtypes"]):
            v["num"] = 2 + 3 * k
        data, twin = M.build(sp), M.build(sp)
        dims = M.num_dims(sp)
        ctx.states += 1
        ctx.traces += 1

        def case():
            return dict(spec=sp)

        ctx.note(case)

        def same(got, want, what):
            ctx.transitions += 1
            got, want = unordered(got), unordered(want)
            ctx.check(got == want, case, f"{what}: {got} != {want}")

        ax = axes()
        P.plot_coordinates(data, title="abc", ax=ax)
        same(drawn(ax), want_coordinates(sp), "coordinates")
        ctx.equal(ax.get_title(), "abc", case, "title")

        ax = axes()
        P.plot_time_windows(data, title="def", ax=ax)
        same(drawn(ax), want_windows(sp), "time windows")
        ctx.equal(ax.get_title(), "def", case, "title")

        for dim in range(dims + 2):
            ax = axes()
            if dim >= dims:
                ctx.transitions += 1
                try:
                    P.plot_demands(data, dimension=dim, ax=ax)
                except ValueError:
                    continue
                ctx.fail(case(), f"dimension {dim} of {dims} accepted")
                continue
            P.plot_demands(data, dimension=dim, ax=ax)
            same(drawn(ax), want_demands(sp, dim), f"demands {dim}")
            title = demand_title(sp, dim)
            if title:
                ctx.equal(ax.get_title(), title, case, "title")
            ax = axes()
            P.plot_demands(data, dim, "xyz", ax)
            ctx.equal(ax.get_title(), "xyz", case, "title")

        # All three on one figure, and on a figure or axes of their own.
        if dims:
            fig = Figure()
            P.plot_instance(data, fig)
            got = sorted(repr(unordered(drawn(a))) for a in fig.axes)
            want = sorted(
                repr(unordered(w)) for w in
                (want_coordinates(sp), want_windows(sp), want_demands(sp, 0))
            )
            ctx.transitions += 1
            ctx.check(got == want, case, f"instance: {got} != {want}")
        if len(feats) <= 1:
            for func, want in (
                (P.plot_coordinates, want_coordinates(sp)),
                (P.plot_time_windows, want_windows(sp)),
                (P.plot_demands, want_demands(sp, 0) if dims else None),
            ):
                if want is None:
                    continue
                plt.close("all")
                func(data)
                ctx.equal(len(plt.get_fignums()), 1, case, "figures")
                same(drawn(plt.gca()), want, "own axes")
            plt.close("all")
        ctx.check(data == twin, case, "plotting changed the instance")
    ctx.sample(dict(spec=sp))


# -- solutions --------------------------------------------------------------------


def want_solution(sp, routes, locations):
    """Per route, what is drawn; and everything else."""
    per_route, rest = [], []
    rest.append(("dots", "Depot", [place(d["loc"]) for d in sp["depots"]]))
    for idx, (k, acts) in enumerate(routes):
        v = sp["vtypes"][k]
        full = [f"D{v['start']}", *acts, f"D{v['end']}"]
        ends = [a for a in full if a[0] == "D"]
        here = []
        for trip, start, end in zip(M.trips(acts), ends, ends[1:]):
            if not trip:
                continue
            xy = [place(M.where(sp, a)) for a in trip]
            if locations or len(trip) == 1:
                here.append(("dots", f"Route {idx + 1}", xy))
            if len(trip) > 1:
                here.append(("line", "", xy))
            rest.append(
                ("line", "", [xy[-1], place(M.where(sp, end))])
            )
            rest.append(("arrow", "", [place(M.where(sp, start)), xy[0]]))
        per_route.append(here)
    if locations:
        seen = {a for _, acts in routes for a in acts}
        unplanned = [
            place(M.where(sp, a))
            for a in [f"C{i}" for i in range(len(sp["clients"]))]
            + [f"{t}{i}" for i in range(len(sp["ships"])) for t in "LU"]
            if a not in seen
        ]
        if unplanned:
            rest.append(("dots", "Unvisited", unplanned))
    return per_route, rest


def colours(ax):
    """Colour of each drawn line and set of dots, besides what it shows."""
    from matplotlib.colors import to_hex

    out = {}
    for line in ax.lines:
        key = repr(("line", pts(line.get_xydata())))
        out.setdefault(key, set()).add(to_hex(line.get_color()))
    for coll in ax.collections:
        key = repr(("dots", sorted(pts(coll.get_offsets()))))
        out.setdefault(key, set()).add(to_hex(coll.get_facecolor()[0]))
    return out


def one_solution(ctx, sp, data, sol, routes, case):
    from pyvrp import plotting as P

    for locations in (False, True):
        ctx.transitions += 1
        ax = spare()
        P.plot_solution(sol, data, plot_locations=locations, ax=ax)
        per_route, rest = want_solution(sp, routes, locations)
        got = unordered(drawn(ax))
        want = unordered(itertools.chain(rest, *per_route))
        if got != want:
            extra = [x for x in got if x not in want]
            lacks = [x for x in want if x not in got]
            ctx.fail(case(), f"drawn {extra} instead of {lacks}")
            continue
        cols = colours(ax)
        for here in per_route:
            keys = [repr((k, sorted(c) if k == "dots" else c))
                    for k, _, c in here]
            common = set.intersection(*(cols[k] for k in keys))
            ctx.check(common, case, "trips of a route differ in colour")


def solutions(ctx, shard):
    import pyvrp as pv

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        data, twin = M.build(sp), M.build(sp)
        for routes in F.solutions(sp, max_reload=shard["reloads"], max_len=3):
            ctx.states += 1
            ctx.traces += 1

            def case():
                return dict(spec=sp, routes=routes)

            ctx.note(case)
            sol = F.real_solution(pv, data, routes)
            one_solution(ctx, sp, data, sol, F.as_lists(sol), case)
            ctx.check(sol == F.real_solution(pv, data, routes), case,
                      "plotting changed the solution")
        ctx.check(data == twin, sp, "plotting changed the instance")
    ctx.sample(dict(spec=sp, last=routes))


def many(ctx, shard):
    """More routes than there are colours, on figures of their own."""
    import matplotlib.pyplot as plt

    import pyvrp as pv
    from pyvrp import plotting as P

    for num in (1, 2, 9, 10, 11, 12, 21):
        for per in (1, 2, 3):
            ctx.states += 1
            ctx.traces += 1
            sp = big(num * per)
            data = M.build(sp)
            routes = [(0, [f"C{per * i + j}" for j in range(per)])
                      for i in range(num)]

            def case():
                return dict(spec="many", routes=num, per=per)

            ctx.note(case)
            sol = F.real_solution(pv, data, routes)
            one_solution(ctx, sp, data, sol, routes, case)
            plt.close("all")
            P.plot_solution(sol, data)
            ctx.equal(len(plt.get_fignums()), 1, case, "figures")
            plt.close("all")


def big(num):
    locs = num + 2
    mat = [[0 if i == j else (3 * i + 5 * j) % 17 + 1 for j in range(locs)]
           for i in range(locs)]
    return M.spec(
        dist=[mat], dur=[mat], depots=[M.depot(0)],
        clients=[M.client(i + 1, d=[1], p=[0]) for i in range(num)],
        vtypes=[M.vtype(num=num, cap=[num])],
    )


# -- route schedules --------------------------------------------------------------


def want_schedule(sp, k, acts, start, slack, dim):
    v = sp["vtypes"][k]
    dist, dur = sp["dist"][v["prof"]], sp["dur"][v["prof"]]
    loads = dim < M.num_dims(sp)
    times, drives, servs, load = [], [], [], []
    windows, warps = [], []
    trips = M.trips(acts)
    sums = [
        sum(M.get(sp["clients"][int(a[1:])]["d"], dim) for a in t
            if a[0] == "C")
        for t in trips
    ]
    sums[0] += M.get(v["init"], dim)
    at = drive = serv = 0
    now = sums[0]
    prev = sp["depots"][v["start"]]["loc"]
    line = M.schedule(sp, k, acts, start)
    for pos, (act, trip, begin, end, wait, warp) in enumerate(line):
        loc, early, late, _ = M.stop(sp, act)
        at += dist[prev][loc]
        drive += dur[prev][loc]
        prev = loc

        def add(time):
            times.append((at, time))
            drives.append((at, drive))
            servs.append((at, drive + serv))
            load.append((at, now))

        add(begin - wait)
        if warp > 0:
            warps.append([(at, begin + warp), (at, late)])
        idx = int(act[1:])
        if act[0] == "D":
            if 0 < pos < len(line) - 1:
                now = sums[trip]
        elif act[0] == "C":
            c = sp["clients"][idx]
            now += M.get(c["p"], dim) - M.get(c["d"], dim)
        else:
            amt = M.get(sp["ships"][idx]["amt"], dim)
            now += amt if act[0] == "L" else -amt
        add(begin)
        serv += end - begin
        add(end)
        windows.append([(at, early), (at, late)])
    main = [
        ("line", "Time (earliest)", pts(times)),
        ("line", "Drive + service time", pts(servs)),
        ("line", "Drive time", pts(drives)),
        ("lines", "Time window", [pts(s) for s in windows]),
        ("lines", "Time warp", [pts(s) for s in warps]),
    ]
    if slack > 0:
        main.append(("area", "Time (slack)",
                     area(times, [(x, y + slack) for x, y in times])))
    twin = None
    if loads:
        twin = [("area", "Load in vehicle",
                 area([(x, 0) for x, _ in load], load))]
    return main, twin


def area(low, high):
    return set(pts(low)) | set(pts(high))


def loose(items):
    return norm(
        (k, lab, sorted(c) if k == "area" and isinstance(c, set) else
         sorted({p for poly in c for p in poly}) if k == "area" else c)
        for k, lab, c in items if c != [] or k != "lines"
    )


def schedules(ctx, shard):
    import matplotlib.pyplot as plt

    import pyvrp as pv
    from pyvrp import plotting as P

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        data, twin = M.build(sp), M.build(sp)
        dims = M.num_dims(sp)
        for k in range(len(sp["vtypes"])):
            for acts in F.routes(sp, k, max_len=shard["most"], max_reload=1):
                if len(acts) > shard["most"]:
                    continue
                ctx.states += 1
                ctx.traces += 1

                def case():
                    return dict(spec=sp, vehicle=k, route=acts)

                ctx.note(case)
                route = F.real_route(pv, data, k, acts)
                start, slack = route.start_time(), route.slack()
                for dim in range(dims + 1):
                    ctx.transitions += 1
                    ax = axes()
                    legend = (len(acts) + dim) % 2 == 0
                    title = "ghi" if dim else None
                    P.plot_route_schedule(data, route, dim, legend, title, ax)
                    main, load = want_schedule(
                        sp, k, acts, start, slack, dim
                    )
                    got, want = loose(drawn(ax)), loose(main)
                    if got != want:
                        extra = [x for x in got if x not in want]
                        lacks = [x for x in want if x not in got]
                        ctx.fail(case(), f"drawn {extra}, expected {lacks}")
                    others = [a for a in ax.figure.axes if a is not ax]
                    ctx.equal(len(others), int(load is not None), case,
                              "load axes")
                    ctx.equal(ax.get_title(), title or "", case, "title")
                    ctx.equal(ax.get_legend() is not None, legend, case,
                              "legend")
                    for other in others:
                        got, want = loose(drawn(other)), loose(load)
                        ctx.check(got == want, case,
                                  f"load {dim}: {got} != {want}")
                        cap = M.get(sp["vtypes"][k]["cap"], dim)
                        if cap:
                            ctx.equal(tuple(map(num, other.get_ylim())),
                                      (0.0, num(cap)), case, "load limits")
                        ctx.check(f"capacity = {cap}" in other.get_ylabel(),
                                  case, "capacity")
                        ctx.equal(other.get_legend() is not None, legend,
                                  case, "legend")
        if acts:
            plt.close("all")
            P.plot_route_schedule(data, route)
            ctx.equal(len(plt.get_fignums()), 1, case, "figures")
            plt.close("all")
        ctx.check(data == twin, sp, "plotting changed the instance")
    ctx.sample(dict(spec=sp, last=acts))


# -- results ----------------------------------------------------------------------


def trend(times):
    """Least-squares line through (1, t1), (2, t2), ..."""
    n = len(times)
    xs = range(1, n + 1)
    mx, my = sum(xs) / n, sum(times) / n
    slope = sum((x - mx) * (t - my) for x, t in zip(xs, times)) / sum(
        (x - mx) ** 2 for x in xs
    )
    return [(x, my + slope * (x - mx)) for x in xs]


def near(one, two):
    return len(one) == len(two) and all(
        abs(a - c) < 1e-5 and abs(b - d) < 1e-5
        for (a, b), (c, d) in zip(one, two)
    )


def results(ctx, shard):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    from mc.props.c24 import pool
    from pyvrp import Result, Statistics
    from pyvrp import plotting as P

    sols, evs, costs, feas = pool()
    ev, cost = evs[0], costs[0]
    clock = the_clock()
    acts = [(0, 2, 0, 1.0), (3, 1, 1, 2.0), (2, 0, 2, 0.5), (1, 3, 0, 0.0),
            (2, 2, 2, 3.0), (0, 1, 3, 0.25), (1, 1, 1, 1.5), (3, 0, 2, 0.125)]
    sp = F.make(dict(prize="opt", vtw="short"), nc=3, ns=0, nv=1)
    sp["clients"][0]["req"] = True
    sp["clients"][0]["l"] = 9
    sp["vtypes"][0].update(cap=[3], fixed=11)
    data = M.build(sp)
    for depth in range(shard["depth"] + 1):
        for seq in itertools.product(acts, repeat=depth):
            if (acts.index(seq[0]) if seq else 0) != shard["first"]:
                continue
            ctx.states += 1
            ctx.traces += 1

            def case():
                return dict(history=seq)

            ctx.note(case)
            clock.now = 1000.0
            stats = Statistics()
            for cu, ca, be, step in seq:
                clock.now += step
                stats.collect(sols[cu], sols[ca], sols[be], ev)
            best = sols[seq[-1][2] if seq else 0]
            res = Result(best, stats, depth, 1.0)
            lines = {
                "Current": [(i + 1, cost[a[0]]) for i, a in enumerate(seq)],
                "Candidate": [(i + 1, cost[a[1]]) for i, a in enumerate(seq)],
                "Best": [(i + 1, cost[a[2]]) for i, a in enumerate(seq)],
            }
            times = [a[3] for a in seq]

            def objectives(ax, skip, limits, what):
                ctx.transitions += 1
                got = norm(drawn(ax))
                want = norm(("line", lab, pts(val[skip:]))
                            for lab, val in lines.items())
                ctx.check(got == want, case, f"{what}: {got} != {want}")
                if res.is_feasible():
                    want = tuple(num(res.cost() * x) for x in limits)
                    ctx.equal(tuple(map(num, ax.get_ylim())), want, case,
                              f"{what}: limits")

            def runtimes(ax, what):
                ctx.transitions += 1
                got = [pts(line.get_xydata()) for line in ax.lines]
                want = [list(enumerate(times, 1))]
                if len(times) > 1:
                    want.append(trend(times))
                ctx.check(
                    len(got) == len(want)
                    and all(near(a, b) for a, b in zip(got, want)),
                    case, f"{what}: {got} != {want}",
                )

            for skip in (None, *range(depth + 2)):
                ax = spare()
                P.plot_objectives(res, skip, ax)
                objectives(ax, skip or 0, (0.99, 1.05), f"skip {skip}")
            ax = axes()
            P.plot_objectives(res, 1, ax, (0.5, 2.25))
            objectives(ax, 1, (0.5, 2.25), "limits")
            ax = spare()
            P.plot_runtimes(res, ax)
            runtimes(ax, "runtimes")

            if depth >= shard["depth"] and seq[-1] != acts[0]:
                continue
            fig = Figure()
            P.plot_result(res, data, fig)
            left = [a for a in fig.axes if a.get_title() == "Objectives"]
            right = [a for a in fig.axes if a.get_title() == "Solution"]
            third = [a for a in fig.axes if a not in left + right]
            shape = len(left), len(right), len(third)
            if shape != (1, 1, 1):
                ctx.fail(case(), f"result: wrong plots {shape}")
                continue
            objectives(left[0], 0, (0.99, 1.05), "result")
            runtimes(third[0], "result")
            per_route, rest = want_solution(sp, F.as_lists(best), False)
            got = unordered(drawn(right[0]))
            want = unordered(itertools.chain(rest, *per_route))
            ctx.check(got == want, case, f"result: {got} != {want}")
    # The default skips the first twentieth.
    if shard["first"] < 4:
        for length in (19, 20, 21, 39, 40, 59, 60, 100):
            ctx.states += 1
            seq = [acts[(i * 3 + shard["first"]) % len(acts)]
                   for i in range(length)]

            def case():
                return dict(length=length)

            stats = Statistics()
            for cu, ca, be, step in seq:
                clock.now += step
                stats.collect(sols[cu], sols[ca], sols[be], ev)
            res = Result(sols[0], stats, length, 1.0)
            skip = length // 20
            for given, real in ((None, skip), (0, 0), (7, 7)):
                ax = axes()
                P.plot_objectives(res, given, ax)
                got = norm(drawn(ax))
                want = norm(
                    ("line", lab, pts([(i + 1, cost[a[pos]])
                                       for i, a in enumerate(seq)][real:]))
                    for pos, lab in enumerate(("Current", "Candidate", "Best"))
                )
                ctx.transitions += 1
                ctx.check(got == want, case, f"skip {given}")
            plt.close("all")
            P.plot_objectives(res)
            P.plot_runtimes(res)
            ctx.equal(len(plt.get_fignums()), 2, case, "figures")
            plt.close("all")
    ctx.sample(dict(history=acts[: shard["depth"]]))
