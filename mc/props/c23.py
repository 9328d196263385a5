"""C23: load and duration segments compose associatively and exactly."""

import functools
import itertools

from mc import families as F

ID = "C23"
RULE = (
    "every sequence of <= 3 stops over a large and of <= 5 (thorough: 6) "
    "stops over a small alphabet of windows, "
    "service durations and release times with every choice of travel "
    "durations, merged in every association (all binary trees), compared in "
    "all accessors to brute-force execution from every start time; every "
    "sequence of <= 4 (thorough: 5) trips of <= 2 stops with reload stops in "
    "between, built from the front, from the back and from every middle; the "
    "same for loads with every capacity in range and initial loads; every "
    "pair of stops with every choice of totals of earlier trips on either"
)
ASSUMPTIONS = [
    "times up to 40 or unbounded, loads up to 12, integer start times"
]
LATE = 2**63 - 1

#        early, late, service, release
BIG = [
    (e, l, s, r)
    for e, l in ((0, LATE), (0, 3), (2, 5), (4, 4), (6, 9), (3, LATE))
    for s in (0, 2)
    for r in (0, 2, 7)
    if r <= l
]
SMALL = [
    (0, LATE, 1, 0), (0, 3, 0, 2), (4, 4, 2, 0), (6, 9, 0, 7), (3, LATE, 0, 1),
    (1, 2, 3, 0),
]
DEPOTS = [(0, LATE, 0), (2, 6, 1), (0, 4, 0), (7, 9, 2)]
TRIPS = [
    [], [(0, LATE, 1, 0)], [(0, LATE, 0, 6)], [(5, 8, 1, 0)], [(0, 2, 0, 1)],
    [(3, 4, 0, 4), (1, 7, 2, 0)], [(0, LATE, 2, 9), (8, 10, 0, 0)],
]
EDGES = (0, 1, 3)


def shards(tier):
    quick = tier == "quick"
    out = []
    for first in range(len(BIG)):
        out.append(dict(kind="dur", first=first, alpha="BIG",
                        length=3))
    for first in range(len(SMALL)):
        out.append(dict(kind="dur", first=first, alpha="SMALL",
                        length=5 if quick else 6))
        for second in range(len(SMALL)):
            out.append(dict(kind="dur", first=first, second=second,
                            alpha="SMALL", length=5 if quick else 6))
    for first in range(len(TRIPS)):
        for second in range(len(TRIPS)):
            out.append(dict(kind="trips", first=first, second=second,
                            num=4 if quick else 5))
    for first in range(len(SMALL)):
        out.append(dict(kind="cum", first=first))
    for first in range(len(LOADS)):
        for second in range(len(LOADS)):
            out.append(dict(kind="load", first=first, second=second,
                            length=5 if quick else 6))
    for first in range(len(LTRIPS)):
        out.append(dict(kind="ltrips", first=first, num=4 if quick else 5))
    return out


@functools.lru_cache
def trees(lo, hi):
    """All binary trees over the leaves lo..hi-1."""
    if hi - lo == 1:
        return [lo]
    return [
        (a, b)
        for mid in range(lo + 1, hi)
        for a in trees(lo, mid)
        for b in trees(mid, hi)
    ]


def run(shard, ctx):
    from pyvrp._pyvrp import DurationSegment, LoadSegment

    globals()["run_" + shard["kind"]](shard, ctx, DurationSegment, LoadSegment)


# -- durations --------------------------------------------------------------


def simulate(line, start):
    """line: list of (travel, early, late, ready, service)."""
    now = start
    warped = 0
    for travel, early, late, ready, serv in line:
        now += travel
        now = max(now, early, ready)
        if now > late:
            warped += now - late
            now = late
        now += serv
    return now - start + warped, warped, now


def best(line):
    """(warp, duration, earliest and latest such start)."""
    horizon = 3 + sum(x[0] + x[4] for x in line) + max(
        max(x[1], x[3], x[2] if x[2] < 10**6 else 0) for x in line
    )
    runs = [simulate(line, t) for t in range(horizon)]
    low = min((w, d) for d, w, _ in runs)
    good = [t for t in range(horizon) if (runs[t][1], runs[t][0]) == low]
    assert good == list(range(good[0], good[-1] + 1))
    last = good[-1] if good[-1] + 1 < horizon else None  # None: unbounded
    return low[0], low[1], good[0], last, runs[good[0]][2]


def leaf(DS, stop):
    early, late, serv, rel = stop
    return DS(serv, 0, early, late, rel)


def fold(DS, tree, stops, edges):
    """Segment of the tree, with its first and last leaf."""
    if isinstance(tree, int):
        return leaf(DS, stops[tree]), tree, tree
    one, a, b = fold(DS, tree[0], stops, edges)
    two, c, d = fold(DS, tree[1], stops, edges)
    return DS.merge(edges[c - 1], one, two), a, d


def seen(seg):
    return (
        seg.time_warp(), seg.duration(), seg.start_early(), seg.start_late(),
        seg.end_early(), seg.end_late(), seg.release_time(), seg.slack(),
        seg.prev_end_late(),
    )


def run_dur(shard, ctx, DS, LS):
    alpha = globals()[shard["alpha"]]
    first = alpha[shard["first"]]
    if shard["alpha"] == "BIG":
        heads = [(first,)]
        lengths = range(1, shard["length"] + 1)
    elif "second" in shard:
        heads = [(first, alpha[shard["second"]])]
        lengths = range(2, shard["length"] + 1)
    else:
        heads = [(first,)]
        lengths = [1]
    for length in lengths:
        for head in heads:
            for tail in itertools.product(alpha, repeat=length - len(head)):
                stops = (*head, *tail)
                which = EDGES if length < 4 else (0, 2)
                for edges in itertools.product(which, repeat=length - 1):
                    check_dur(ctx, DS, stops, edges)
    ctx.sample(dict(stops=stops, edges=edges))


def check_dur(ctx, DS, stops, edges):
    ctx.states += 1
    rel = max(s[3] for s in stops)
    line = [(0, 0, LATE, rel, 0)]
    for k, (e, l, s, _) in enumerate(stops):
        line.append((edges[k - 1] if k else 0, e, l, 0, s))
    warp, dur, lo, hi, end = best(line)
    case = dict(stops=stops, edges=edges)
    for tree in trees(0, len(stops)):
        ctx.transitions += 1
        ctx.traces += 1
        seg = fold(DS, tree, stops, edges)[0]
        got = seen(seg)
        if hi is None:
            ok = (
                got[:3] == (warp, dur, lo) and got[3] > 10**6
                and got[4] == end and got[5] > 10**6 and got[6] == rel
            )
        else:
            ok = got[:7] == (warp, dur, lo, hi, end, end + hi - lo, rel)
            ok = ok and got[7] == hi - lo
        if not ok:
            ctx.fail(
                dict(case, tree=tree),
                f"segment {got}, execution: time warp {warp}, duration {dur}, "
                f"start {lo}..{hi}, end {end}",
            )
        for limit in (0, dur // 2, max(dur - warp - 1, 0), dur, dur + 1):
            want = warp + max(0, dur - warp - limit)
            if seg.time_warp(limit) != want:
                ctx.fail(dict(case, tree=tree), f"time_warp({limit})")


# -- several trips ----------------------------------------------------------


def run_trips(shard, ctx, DS, LS):
    heads = (TRIPS[shard["first"]], TRIPS[shard["second"]])
    for num in range(2, shard["num"] + 1):
        for tail in itertools.product(TRIPS, repeat=num - 2):
            trips = (*heads, *tail)
            deps = DEPOTS if num < 3 else DEPOTS[:3]
            for depots in itertools.product(deps, repeat=num - 1):
                for edge in (0, 2):
                    check_trips(ctx, DS, trips, depots, edge)
    ctx.sample(dict(trips=trips, depots=depots))


def check_trips(ctx, DS, trips, depots, edge):
    """The depot's opening hours restrict when the vehicle arrives for
    reloading ("arrive"), or when it starts the next trip ("start")."""
    for mode in ("arrive", "start"):
        check_mode(ctx, DS, trips, depots, edge, mode == "arrive")


def check_mode(ctx, DS, trips, depots, edge, arrive):
    ctx.states += 1
    line = [(0, 0, LATE, max([s[3] for s in trips[0]], default=0), 0)]
    for k, trip in enumerate(trips):
        if k:
            e, l, s = depots[k - 1]
            rel = max([x[3] for x in trip], default=0)
            if arrive:
                line.append((edge, e, l, 0, 0))
                line.append((0, 0, LATE, rel, s))
            else:
                line.append((edge, e, l, rel, s))
        for e, l, s, _ in trip:
            line.append((edge, e, l, 0, s))
    warp, dur, lo, hi, end = best(line)
    case = dict(trips=trips, depots=depots, edge=edge, arrive=arrive)

    def reload(k):
        """Arriving for, and beginning, the reload before trip k."""
        e, l, s = depots[k - 1]
        if arrive:
            return DS(0, 0, e, l), DS(s)
        return DS(), DS(s, 0, e, l)

    def trip_seg(trip):
        """Travel to the first stop, and all stops."""
        seg = DS()
        for stop in trip:
            seg = DS.merge(edge, seg, leaf(DS, stop))
        return seg

    def front(k):
        """Everything from arriving for the reload before trip k on."""
        come, begin = reload(k)
        seg = DS.merge(0, begin, trip_seg(trips[k]))
        if k + 1 < len(trips):
            seg = DS.merge(edge, seg, front(k + 1))
        return DS.merge(0, come, seg.finalise_front())

    def back(k):
        """Everything up to and including the stops of trip k."""
        if k == 0:
            return trip_seg(trips[0])
        come, begin = reload(k)
        seg = DS.merge(edge, back(k - 1), come).finalise_back()
        return DS.merge(0, DS.merge(0, seg, begin), trip_seg(trips[k]))

    want = (warp, dur, lo, hi)
    total = DS.merge(edge, trip_seg(trips[0]), front(1))
    got = (total.time_warp(), total.duration(), total.start_early(),
           total.start_late() if hi is not None else None)
    ctx.transitions += 1
    ctx.traces += 1
    if got != want:
        ctx.fail(case, f"from the front {got}, want {want}")
    if hi is not None:
        ctx.equal(total.slack(), hi - lo, case, "slack")

    for k in range(1, len(trips) + 1):  # join what is before and after
        if k == len(trips):
            total = back(k - 1)
        else:
            total = DS.merge(edge, back(k - 1), front(k))
        got = (total.time_warp(), total.duration())
        ctx.transitions += 1
        ctx.traces += 1
        if got != (warp, dur):
            ctx.fail(case, f"joined at {k}: {got}, want {(warp, dur)}")
        for limit in (0, dur // 2, max(dur - warp - 1, 0), dur):
            if total.time_warp(limit) != warp + max(0, dur - warp - limit):
                ctx.fail(case, f"joined at {k}: time_warp({limit})")


# -- loads ------------------------------------------------------------------

# delivery, pickup of clients; ("s", amount) for shipment pickup (+) or
# delivery (-).
LOADS = [(0, 0), (3, 0), (0, 2), (2, 5), (4, 1), ("s", 3), ("s", -3), ("s", 0)]
LTRIPS = [[], [(3, 0)], [(0, 4), (2, 0)], [("s", 3), (1, 1), ("s", -3)],
          [(2, 5), (4, 1), (0, 2)], [(5, 0), ("s", 2), ("s", -2)]]


def run_cum(shard, ctx, DS, LS):
    """Totals of earlier trips add up, wherever they are."""
    totals = list(itertools.product((0, 3, 11), (0, 2)))
    for second in SMALL:
        stops = (SMALL[shard["first"]], second)
        for edge in EDGES:
            plain = [
                DS(s, 0, e, l, r) for e, l, s, r in stops
            ]
            want = DS.merge(edge, *plain)
            for (d1, w1), (d2, w2) in itertools.product(totals, repeat=2):
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                first, last = [
                    DS(s, 0, e, l, r, d, w)
                    for (e, l, s, r), (d, w) in zip(
                        stops, ((d1, w1), (d2, w2))
                    )
                ]
                got = DS.merge(edge, first, last)

                def case():
                    return dict(stops=stops, edge=edge,
                                totals=((d1, w1), (d2, w2)))

                dur = want.duration() + d1 + d2
                warp = want.time_warp() + w1 + w2
                ctx.equal(got.duration(), dur, case, "duration")
                ctx.equal(got.time_warp(), warp, case, "time warp")
                for most in (0, 1, 5, 9, 14, 25, LATE):
                    ctx.equal(
                        got.time_warp(most),
                        warp + max(dur - warp - most, 0), case,
                        f"time warp with at most {most}",
                    )
                for name in ("start_early", "start_late", "end_early",
                             "end_late", "release_time", "slack"):
                    ctx.equal(getattr(got, name)(), getattr(want, name)(),
                              case, name)
                back = got.finalise_back()
                ctx.equal(back.duration(), dur, case, "finalised duration")
                ctx.equal(back.time_warp(), warp, case, "finalised warp")
    ctx.sample(dict(stops=stops))


def load_leaf(LS, act):
    if act[0] == "s":
        return LS(0, act[1], max(act[1], 0))
    d, p = act
    return LS(d, p - d, max(p - d, 0))


def load_run(acts, initial=0):
    """(load at the start, change, maximum load) by execution."""
    now = start = initial + sum(a[0] for a in acts if a[0] != "s")
    top = now
    for act in acts:
        now += act[1] if act[0] == "s" else act[1] - act[0]
        top = max(top, now)
    return start, now - start, top


def load_fold(LS, tree, leaves):
    if isinstance(tree, int):
        return leaves[tree]
    return LS.merge(load_fold(LS, tree[0], leaves),
                    load_fold(LS, tree[1], leaves))


def run_load(shard, ctx, DS, LS):
    heads = (LOADS[shard["first"]], LOADS[shard["second"]])
    for length in range(2, shard["length"] + 1):
        for tail in itertools.product(LOADS, repeat=length - 2):
            acts = (*heads, *tail)
            for init in (0, 2):
                start, delta, top = load_run(acts, init)
                leaves = [LS(init, 0, 0)] + [load_leaf(LS, a) for a in acts]
                ctx.states += 1
                for tree in trees(0, len(leaves)):
                    ctx.transitions += 1
                    ctx.traces += 1
                    seg = load_fold(LS, tree, leaves)
                    got = (seg.initial(), seg.delta(), seg.load(),
                           seg.initial() + seg.increase())
                    if got != (start, delta, top, top):
                        ctx.fail(
                            dict(acts=acts, init=init, tree=tree),
                            f"segment {got}, want {(start, delta, top)}",
                        )
                for cap in (0, top - 1, top, top + 1):
                    if cap >= 0:
                        want = max(top - cap, 0)
                        fin = seg.finalise(cap)
                        ctx.transitions += 1
                        if not (
                            seg.excess_load(cap) == want
                            == fin.excess_load(cap) == fin.excess_load(0)
                            and fin.load() == fin.delta() == fin.initial() == 0
                        ):
                            ctx.fail(dict(acts=acts, init=init, cap=cap),
                                     f"excess load is not {want}")
    ctx.sample(dict(acts=acts))


def run_ltrips(shard, ctx, DS, LS):
    for num in range(1, shard["num"] + 1):
        for tail in itertools.product(LTRIPS, repeat=num - 1):
            trips = (LTRIPS[shard["first"]], *tail)
            for cap, init in itertools.product(range(0, 9), (0, 2)):
                want = sum(
                    max(0, load_run(t, init if not k else 0)[2] - cap)
                    for k, t in enumerate(trips)
                )
                segs = []
                for k, trip in enumerate(trips):
                    seg = LS(init if not k else 0, 0, 0)
                    for act in trip:
                        seg = LS.merge(seg, load_leaf(LS, act))
                    segs.append(seg)
                ctx.states += 1
                ctx.traces += 2
                ctx.transitions += 2
                total = segs[0]
                for seg in segs[1:]:
                    total = LS.merge(total.finalise(cap), seg)
                got = total.excess_load(cap)
                ctx.equal(got, want, dict(trips=trips, cap=cap), "front")
                total = segs[-1]
                for seg in reversed(segs[:-1]):
                    total = LS.merge(seg, total.finalise(cap))
                got = total.excess_load(cap)
                ctx.equal(got, want, dict(trips=trips, cap=cap), "back")
    ctx.sample(dict(trips=trips))
