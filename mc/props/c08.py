"""C08: local search is a function of its input, not of its history."""

import itertools
import pickle

from mc import families as F
from mc import model as M
from mc import wide as W

ID = "C08"
RULE = (
    "every instance with <= 1 feature: every history of <= 3 calls, with <= 2 "
    "features: of <= 2 calls (thorough: all <= 3) on one real local search object over an alphabet of "
    "start solutions (empty, partial, complete, feasible or not) x "
    "{exhaustive, perturbing} x 2 penalty settings, with and without shuffles "
    "in between; the last call's solution and statistics are compared to "
    "those of a fresh object brought to the same shuffle, and inputs, "
    "instance and neighbourhood are compared before and after; also histories "
    "with temporarily replaced neighbourhoods; and every history of 2 calls on "
    "wide instances of each kind (70 clients, 6 shipments)"
)
ASSUMPTIONS = ["at most 4 visits, 3 vehicles, 6 start solutions per instance"]
PENS = [(20, 6, 9), (1.5, 0.8, 0.4)]


def shards(tier):
    order = 1 if tier == "quick" else 2
    out = []
    for kw in (
        dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2), dict(nc=4, ns=0, nv=1),
        dict(nc=0, ns=2, nv=2),
    ):
        for feats in F.subsets(order):
            out.append(dict(kw=kw, feats=feats, forced={}))
            for force in (
                dict(prize="all"), dict(group="req"), dict(reload="many"),
            ):
                if feats and not set(force) & set(feats):
                    out.append(dict(kw=kw, feats=dict(feats, **force)))
    for name in W.FEATS:
        out.append(dict(wide=name, feats={}))
    for shard in out:
        deep = tier == "thorough" or len(shard["feats"]) <= 1
        shard["length"] = 3 if deep else 2
        shard["shuffled"] = 3 if tier == "thorough" else 2
    return out


def pick(sp):
    """A spread of start solutions: by number of planned visits and routes."""
    best = {}
    for routes in F.solutions(sp, max_reload=1, max_len=4):
        visits = sum(a[0] in "CL" for _, acts in routes for a in acts)
        reload = any(a[0] == "D" for _, acts in routes for a in acts)
        best[visits, len(routes), reload] = routes
    keys = sorted(best)
    # Empty, partial, complete on one and on several vehicles.
    want = [keys[0], keys[-1], keys[len(keys) // 2], keys[2 * len(keys) // 3]]
    return [best[k] for k in dict.fromkeys(want)]


def raw(data, ops, seed=None, shuffles=0, strength=(1, 2)):
    import pyvrp as pv
    from pyvrp import search as S
    from pyvrp.search import _search as RAW

    pm = S.PerturbationManager(S.PerturbationParams(*strength))
    ls = RAW.LocalSearch(data, S.compute_neighbours(data), pm)
    objs = [op(data) for op in ops]
    for op in objs:
        ls.add_operator(op)
    rng = pv.RandomNumberGenerator(seed=seed) if seed else None
    for _ in range(shuffles):
        ls.shuffle(rng)
    return ls, rng, (pm, objs)


def stats(ls):
    s = ls.statistics
    ops = [
        (op.name, op.statistics.num_evaluations, op.statistics.num_applications)
        for op in (*ls.unary_operators, *ls.binary_operators)
    ]
    return s.num_moves, s.num_improving, s.num_updates, ops


def BIG_FIRST(shard):
    return 1 if "wide" in shard else 0


def run_wide(shard, ctx):
    """All histories of two calls on a wide instance."""
    import pyvrp as pv
    from pyvrp import search as S

    sp = W.make(shard["wide"])
    W.fleet(sp)
    data, other = M.build(sp), M.build(sp)
    ops = [op for op in S.OPERATORS if op.supports(data)]
    ev = pv.CostEvaluator([20, 22, 24], 6, 9)
    starts = [[], W.deal(sp, 5, skip=4), W.deal(sp, 6, reload=True)]
    sols = [F.real_solution(pv, data, r) for r in starts]
    calls = list(itertools.product(range(len(sols)), (True, False)))
    for seed, strength in ((None, (1, 25)), (1, (25, 70))):
        fresh = {}

        def ask(made, call):
            ls, rng, _ = made
            if seed:
                ls.shuffle(rng)
            res = ls(sols[call[0]], ev, call[1])
            ctx.transitions += 1
            return canon(res), stats(ls)

        for depth, call in itertools.product((1, 2), calls):
            made = raw(data, ops, seed, depth - 1 if seed else 0, strength)
            fresh[depth, call] = ask(made, call)
        for hist in itertools.product(calls, repeat=2):
            ctx.states += 1
            ctx.traces += 1

            def case():
                return dict(wide=shard["wide"], history=hist, seed=seed,
                            strength=strength)

            ctx.note(case)
            made = raw(data, ops, seed, 0, strength)
            for depth, call in enumerate(hist, 1):
                if ask(made, call) != fresh[depth, call]:
                    ctx.fail(case(), f"call {depth} depends on the history")
    for sol, routes in zip(sols, starts):
        ctx.check(sol == F.real_solution(pv, data, routes), shard,
                  "given solution changed")
    ctx.check(data == other, shard, "instance changed")
    ctx.sample(dict(wide=shard["wide"]))


def run(shard, ctx):
    if "wide" in shard:
        return run_wide(shard, ctx)

    import pyvrp as pv
    from pyvrp import search as S

    sp = F.make(shard["feats"], **shard["kw"])
    for k, v in enumerate(sp["vtypes"]):
        v["num"] = 2 if k == 0 else 1
    data = M.build(sp)
    other = M.build(sp)
    ops = [op for op in S.OPERATORS if op.supports(data)]
    dims = M.num_dims(sp)
    evs = [
        pv.CostEvaluator([ld + d for d in range(dims)], tw, di)
        for ld, tw, di in PENS
    ]
    starts = pick(sp)
    sols = [F.real_solution(pv, data, r) for r in starts]
    blobs = [pickle.dumps(s) for s in sols]
    calls = [
        (s, e, exh)
        for s in range(len(sols))
        for e in range(len(evs))
        for exh in (True, False)
    ]
    hood = S.compute_neighbours(data)

    for seed, strength in ((None, (1, 2)), (1, (1, 2)), (None, (0, 0)),
                           (2, (0, 1))):
        length = shard["length"]
        if seed or strength == (0, 0):
            length = shard["shuffled"]
        # What a fresh object answers, after the same number of shuffles.
        fresh = {}
        for depth in range(1, length + 1):
            for call in calls:
                ls, rng, keep = raw(
                    data, ops, seed, depth if seed else 0, strength
                )
                res = ls(sols[call[0]], evs[call[1]], call[2])
                fresh[depth, call] = (canon(res), stats(ls))
                if not seed:
                    for d in range(1, length + 1):
                        fresh[d, call] = fresh[depth, call]
            if not seed:
                break

        # All histories; each history's every prefix is checked.
        for first in calls:
            for rest in itertools.product(calls, repeat=length - 1):
                ls, rng, keep = raw(data, ops, seed, 0, strength)
                hist = [first, *rest]
                for depth, call in enumerate(hist, 1):
                    ctx.transitions += 1
                    if seed:
                        ls.shuffle(rng)
                    ctx.note(lambda: dict(spec=sp, starts=starts, hist=hist))
                    res = ls(sols[call[0]], evs[call[1]], call[2])
                    got = (canon(res), stats(ls))
                    want = fresh[depth, call]
                    if got != want:
                        ctx.fail(
                            dict(spec=sp, starts=starts, history=hist[:depth],
                                 seed=seed, strength=strength),
                            f"got {got}, fresh object gives {want}",
                        )
                ctx.states += 1
                ctx.traces += 1
        # Replacing the neighbourhood and restoring it changes nothing.
        for call in calls:
            ls, rng, keep = raw(data, ops, seed, 1 if seed else 0, strength)
            small = {k: v[:1] for k, v in hood.items()}
            ls.neighbours = small
            ctx.equal(
                {str(k): [str(x) for x in v] for k, v in ls.neighbours.items()},
                {str(k): [str(x) for x in v] for k, v in small.items()},
                dict(spec=sp), "neighbourhood",
            )
            ls(sols[call[0]], evs[call[1]], call[2])
            ls.neighbours = hood
            res = ls(sols[call[0]], evs[call[1]], call[2])
            ctx.states += 1
            ctx.equal(
                (canon(res), stats(ls)), fresh[1, call],
                dict(spec=sp, start=starts[call[0]], call=call),
                "after restoring the neighbourhood",
            )

    for sol, blob, routes in zip(sols, blobs, starts):
        ctx.equal(pickle.dumps(sol), blob, dict(spec=sp, start=routes),
                  "given solution changed")
    ctx.check(data == other, dict(spec=sp), "instance changed")
    ctx.check(hood == S.compute_neighbours(data), dict(spec=sp),
              "neighbourhood changed")
    ctx.sample(dict(spec=sp, starts=starts))


def canon(sol):
    return F.as_lists(sol)
