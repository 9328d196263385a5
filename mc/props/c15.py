"""C15: neighbourhoods against a direct computation of the proximity."""

import itertools

from mc import families as F
from mc import model as M
from mc import wide as W

ID = "C15"
RULE = (
    "every instance with <= 3 (thorough: 4) interacting features for 6 "
    "mixtures of 0-5 clients and 0-3 shipments, and every combination of 6 time windows "
    "and 2 service times over 3 visits, each with every parameter combination "
    "(4 waiting weights, 5 sizes, symmetric or not), and wide instances of each "
    "kind, with up to 73 visits and 5 vehicle types: the real neighbourhoods "
    "are compared to a direct computation of the documented proximity, "
    "allowing any order among ties; computed twice"
)
ASSUMPTIONS = ["weights and data for which all terms are exact in doubles"]
PARAMS = list(
    itertools.product((0.0, 0.25, 1.5, 8.0), (1, 2, 3, 5, 50), (False, True))
)
MAX = 1e300  # stands for "not feasible, or same group"
KINDS = (
    dict(nc=3, ns=0, nv=2), dict(nc=2, ns=1, nv=2), dict(nc=5, ns=0, nv=1),
    dict(nc=0, ns=3, nv=2), dict(nc=2, ns=2, nv=1), dict(nc=1, ns=0, nv=1),
)


def shards(tier):
    order = 3 if tier == "quick" else 4
    out = []
    for kw in KINDS:
        for chunk in F.chunks(list(F.subsets(order)), 24):
            out.append(dict(kw=kw, feats=chunk))
    for ns in (0, 1):
        for first in range(6):
            out.append(dict(windows=first, ns=ns))
    for name in W.FEATS:
        out.append(dict(wide=name, kw=dict(nc=67, ns=6)))
        out.append(dict(wide=name, kw=dict(nc=4, ns=30, nv=5, profs=4)))
    return out


def visits(sp):
    """Activity -> (location, early, late, service)."""
    out = {}
    for k, c in enumerate(sp["clients"]):
        out[f"C{k}"] = (c["loc"], c["e"], c["l"], c["s"])
    for k, s in enumerate(sp["ships"]):
        out[f"L{k}"] = (s["ploc"], s["pe"], s["pl"], s["ps"])
        out[f"U{k}"] = (s["dloc"], s["de"], s["dl"], s["ds"])
    return out


def proximity(sp, weight, symmetric):
    where = visits(sp)
    profiles = {(v["ud"], v["ut"], v["prof"]) for v in sp["vtypes"]}

    def arc(frm, to):
        best = MAX
        for ud, ut, prof in profiles:
            floc, fe, fl, fs = where[frm]
            tloc, te, tl, _ = where[to]
            dur = sp["dur"][prof][floc][tloc]
            if fe + fs + dur > tl:  # cannot be on time
                continue
            wait = max(te - (fl + fs + dur), 0)
            cost = ud * sp["dist"][prof][floc][tloc] + ut * (dur + wait)
            best = min(best, cost + weight * wait)
        return best

    def pair(frm, to):
        return min(arc(frm, to), arc(to, frm)) if symmetric else arc(frm, to)

    prox = {}
    for frm in where:
        if frm[0] == "U":
            continue
        row = {}
        for to in where:
            if to[0] == frm[0] and to[1:] == frm[1:]:
                continue
            if frm[0] == "L":
                if to == "U" + frm[1:]:
                    continue
                row[to] = min(pair(frm, to), pair("U" + frm[1:], to))
            else:
                row[to] = pair(frm, to)
                if to[0] == "C":
                    g = sp["clients"][int(frm[1:])]["g"]
                    if g is not None and g == sp["clients"][int(to[1:])]["g"]:
                        row[to] = MAX
        prox[frm] = row
    return prox


def check(sp, ctx, S, grid=PARAMS):
    data = M.build(sp)
    nc, ns = len(sp["clients"]), len(sp["ships"])
    most = max(nc - 1, 0) + 2 * max(ns - 1, 0)
    ctx.states += 1
    memo = {}
    for weight, num, symmetric in grid:
        if (weight, symmetric) not in memo:
            memo[weight, symmetric] = proximity(sp, weight, symmetric)
        prox = memo[weight, symmetric]
        par = S.NeighbourhoodParams(weight, num, symmetric)
        real = S.compute_neighbours(data, par)
        ctx.transitions += 1
        ctx.traces += 1

        def case():
            return dict(spec=sp, params=(weight, num, symmetric))

        got = {str(k): [str(x) for x in v] for k, v in real.items()}
        if set(got) != set(prox):
            ctx.fail(case(), f"neighbourhoods of {sorted(got)}")
            continue
        for frm, row in prox.items():
            hood = got[frm]
            if len(hood) != len(set(hood)) or not set(hood) <= set(row):
                ctx.fail(case(), f"{frm}: {hood} not distinct other visits")
                break
            if len(hood) != min(num, most):
                ctx.fail(case(), f"{frm}: {hood}, want {min(num, most)}")
                break
            have = [row[x] for x in hood]
            want = sorted(row.values())[: len(hood)]
            if have != want:
                ctx.fail(
                    case(), f"{frm}: {hood} has proximities {have}, the "
                    f"closest are {want}",
                )
                break
        again = S.compute_neighbours(data, par)
        if again != real:
            ctx.fail(case(), "not reproducible")


def run(shard, ctx):
    from pyvrp import search as S

    if "wide" in shard:
        sp = W.make(shard["wide"], **shard["kw"])
        grid = itertools.product(
            (0.0, 0.25), (1, 63, 65, 500), (False, True)
        )
        check(sp, ctx, S, list(grid))
        ctx.sample(dict(wide=shard))
        return

    if "windows" in shard:
        tws = [(0, M.LATE), (0, 3), (4, 6), (9, 9), (2, 12), (16, 19)]
        tws = tws[shard["windows"]:] + tws[: shard["windows"]]
        for a in tws[:1]:
            for rest in itertools.product(tws, repeat=2):
                for svc in itertools.product((0, 2), repeat=3):
                    for ut in (0, 3):
                        sp = F.base(nc=3 - shard["ns"], ns=shard["ns"], nv=2)
                        sp["vtypes"][1].update(ud=2, prof=1)
                        for v in sp["vtypes"]:
                            v["ut"] = ut
                        for c, (e, l), s in zip(
                            sp["clients"], (a, *rest), svc
                        ):
                            c.update(e=e, l=l, s=s)
                        if shard["ns"]:
                            e, l = rest[1]
                            sp["ships"][0].update(
                                pe=e, pl=l, ps=svc[2], de=e, dl=min(l + 3, M.LATE)
                            )
                        check(sp, ctx, S)
        ctx.sample(dict(spec=sp))
        return

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        check(sp, ctx, S)
    ctx.sample(dict(spec=sp))
    if shard["feats"] and shard["feats"][0] == {}:
        for num in (0, 1):
            try:
                S.NeighbourhoodParams(num_neighbours=num)
                ctx.check(num > 0, num, "accepted")
            except ValueError:
                ctx.check(num == 0, num, "rejected")
