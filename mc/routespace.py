"""The bounded space of (instance, route) pairs shared by C01, C02 and C04."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W


def lattice_shards(tier, num=96):
    order = 3 if tier == "quick" else 4
    reloads = 1 if tier == "quick" else 2
    feats = list(F.subsets(order))
    shards = []
    for kw in (dict(nc=3, ns=0), dict(nc=1, ns=1), dict(nc=0, ns=2)):
        if kw["nc"] == 0:
            use = [f for f in feats if len(f) <= order - 1]
        elif kw["ns"] == 0:
            use = [f for f in feats if "stw" not in f]
        else:
            use = feats
        for chunk in F.chunks(use, num):
            shards.append(
                dict(kind="lattice", kw=kw, feats=chunk, reloads=reloads)
            )
    return shards


TW = [(0, M.LATE), (0, 3), (4, 7), (6, 6)]
VTW = [(0, M.LATE, None), (2, 12, None), (0, M.LATE, 3), (3, 9, 5)]
SHIFT = [(M.LATE, 0), (5, 0), (5, 3)]
DEP = [(0, M.LATE, 0), (1, 8, 1), (0, 3, 0)]
REL = [0, 5]


def timing_shards(tier):
    rel = REL if tier == "quick" else [0, 2, 5, 9]
    serv = [0, 2]
    per = list(itertools.product(TW, serv, rel))
    return [
        dict(kind="timing", c0=k, vtw=i, rel=rel)
        for k in range(len(per))
        for i in range(len(VTW))
    ]


def load_shards(tier):
    return [
        dict(kind="load", c0=k, init=i)
        for k in range(9)
        for i in ([], [2], [6])
    ]


def wide_shards(tier):
    out = [
        dict(kind="wide", feat=name, vt=vt) for name in W.FEATS
        for vt in range(3)
    ]
    order = 1 if tier == "quick" else 2
    for by in W.SCALES:
        for kw in (dict(nc=2, ns=1), dict(nc=3, ns=0)):
            for chunk in F.chunks(list(F.subsets(order)), 8):
                out.append(dict(kind="scaled", feats=chunk, by=by, kw=kw))
    return out


def shards(tier):
    return (
        lattice_shards(tier)
        + timing_shards(tier)
        + three_shards(tier)
        + load_shards(tier)
        + wide_shards(tier)
    )


def three_shards(tier):
    """Three visits in several trips: windows against release times."""
    per = list(itertools.product([(0, M.LATE), (0, 3), (6, 9)], [0, 8]))
    return [dict(kind="three", c0=k) for k in range(len(per))]


SCALED = (
    "start", "slack", "duration", "time_warp", "overtime", "travel",
    "service", "wait", "distance", "excess_distance", "delivery", "pickup",
    "excess_load", "distance_cost", "duration_cost", "fixed", "prizes",
    "release",
)


def expected(sp, vt, acts, by):
    """Reference statistics, of the instance times the given factor."""
    out = M.evaluate(sp, vt, acts)
    if by != 1:
        for key in SCALED:
            val = out[key]
            if isinstance(val, list):
                out[key] = [x * by for x in val]
            elif val is not None:
                out[key] = val * by
    return out


def cases(shard):
    """Yields (spec, data, type, routes, factor) with all routes of each
    instance; the data is that of the spec with all values times the factor."""
    if shard["kind"] == "wide":
        sp = W.make(shard["feat"])
        vt = shard["vt"]
        yield sp, M.build(sp), vt, W.legal_long_routes(sp, vt), 1
        return
    if shard["kind"] == "scaled":
        for feats in shard["feats"]:
            sp = M.legalise(F.make(feats, **shard["kw"]))
            big = M.build(W.scaled(sp, shard["by"]))
            yield sp, big, 0, F.routes(sp, 0, max_len=4), shard["by"]
        return
    for sp, data, routes in small(shard):
        yield sp, data, 0, routes, 1


def small(shard):
    if shard["kind"] == "lattice":
        for feats in shard["feats"]:
            sp = F.make(feats, **shard["kw"])
            yield sp, M.build(sp), F.routes(
                sp, 0, max_len=4, max_reload=shard["reloads"]
            )

    if shard["kind"] == "timing":
        per = list(itertools.product(TW, [0, 2], shard["rel"]))
        e, l, sl = VTW[shard["vtw"]]
        for other, (shift, ot), (de, dl, ds) in itertools.product(
            per, SHIFT, DEP
        ):
            sp = F.base(nc=2)
            for c, ((ce, cl), s, r) in zip(
                sp["clients"], (per[shard["c0"]], other)
            ):
                c.update(e=ce, l=cl, s=s, r=r)
            sp["depots"][0].update(e=de, l=dl, s=ds)
            sp["vtypes"][0].update(
                e=e, l=l, sl=sl, shift=shift, ot=ot, uo=2, ut=1, maxre=1,
                reload=[0],
            )
            yield sp, M.build(sp), [
                ["C0"], ["C0", "C1"], ["C1", "C0"], ["C0", "D0", "C1"],
                ["C1", "D0", "C0"], ["D0", "C0", "C1"],
            ]

    if shard["kind"] == "three":
        per = list(itertools.product([(0, M.LATE), (0, 3), (6, 9)], [0, 8]))
        for one, two, (de, dl, ds) in itertools.product(per, per, DEP):
            sp = F.base(nc=3)
            for c, ((ce, cl), r) in zip(
                sp["clients"], (per[shard["c0"]], one, two)
            ):
                c.update(e=ce, l=cl, r=r)
            sp["depots"][1].update(e=de, l=dl, s=ds)
            sp["vtypes"][0].update(maxre=2, reload=[0, 1], ut=1)
            yield sp, M.build(sp), [
                ["C0", "C1", "D1", "C2"], ["C0", "D1", "C1", "C2"],
                ["C0", "D1", "C1", "D0", "C2"], ["C0", "D1", "D1", "C1", "C2"],
                ["C0", "D0", "C1", "D1", "C2"], ["C0", "C1", "C2", "D1"],
            ]

    if shard["kind"] == "load":
        per = list(itertools.product([0, 2, 5], [0, 1, 3]))
        for other, third, cap, amt in itertools.product(
            per, [(0, 2), (3, 0), (1, 1)], [0, 2, 4, 7], [0, 1, 4]
        ):
            sp = F.base(nc=3, ns=1)
            for c, (d, p) in zip(
                sp["clients"], (per[shard["c0"]], other, third)
            ):
                c.update(d=[d], p=[p])
            sp["ships"][0]["amt"] = [amt]
            sp["vtypes"][0].update(
                cap=[cap], init=shard["init"], reload=[1], maxre=1
            )
            yield sp, M.build(sp), [
                ["C0", "C1"], ["C0", "C1", "C2"], ["C0", "D1", "C1"],
                ["C0", "C2", "D1", "C1"], ["C2", "D1"],
                ["L0", "U0", "C0"], ["C0", "L0", "C1", "U0"],
                ["L0", "C0", "C1", "U0"],
                ["C1", "L0", "C0", "U0", "D1", "C2"],
            ]
