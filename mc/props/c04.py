"""C04: objective values equal the documented objective."""

import itertools

from mc import families as F
from mc import model as M
from mc import routespace as R

ID = "C04"
RULE = (
    "(a) every single-route solution of C01's bounded route space and (b) "
    "every legal solution of every instance with <= 2 (thorough: 3) "
    "interacting features, under 5 penalty settings (zero, unit, fractional, "
    "large, per-dimension different): cost and penalised cost compared to the "
    "documented objective computed from executing the routes; (c) the product "
    "lattice of arguments of the individual penalty functions"
)
ASSUMPTIONS = [
    "fractional penalties: each penalty term is truncated to an integer",
]

PENS = [(0, 0, 0), (1, 1, 1), (2.5, 0.7, 1.3), (20, 6, 100), (3, 0, 7)]


def shards(tier):
    out = [
        dict(s, part="route")
        for s in R.lattice_shards("quick", 48) + R.wide_shards("quick")
    ]
    if tier == "thorough":
        out = [dict(s, part="route") for s in R.shards("thorough")]
    order = 2 if tier == "quick" else 3
    for kw in (
        dict(nc=3, ns=0, nv=2), dict(nc=1, ns=1, nv=2), dict(nc=0, ns=2, nv=1)
    ):
        for chunk in F.chunks(list(F.subsets(order)), 48):
            out.append(dict(part="sol", kw=kw, feats=chunk))
    out.append(dict(part="terms"))
    return out


def pens(sp):
    dims = M.num_dims(sp)
    for ld, tw, dist in PENS:
        # Different dimensions get different penalties.
        yield [ld + d * 2 for d in range(dims)], tw, dist


def run(shard, ctx):
    import pyvrp as pv

    if shard["part"] == "terms":
        return terms(pv, ctx)
    if shard["part"] == "route":
        for sp, data, vt, routes, by in R.cases(shard):
            evals = [(p, pv.CostEvaluator(*p)) for p in pens(sp)]
            for acts in routes:
                if any(a[0] in "CL" for a in acts):
                    stats = R.expected(sp, vt, acts, by)
                    cache = {(vt, tuple(acts)): stats}
                    one(pv, ctx, sp, data, [(vt, acts)], evals, cache, by)
        return ctx.sample(dict(spec=sp, route=acts))

    for feats in shard["feats"]:
        sp = F.make(feats, **shard["kw"])
        for v in sp["vtypes"]:
            v["num"] = 1 if len(sp["vtypes"]) > 1 else 2
        data = M.build(sp)
        evals = [(p, pv.CostEvaluator(*p)) for p in pens(sp)]
        cache = {}
        for routes in F.solutions(sp, max_reload=0 if sp["ships"] else 1,
                                  max_len=4):
            one(pv, ctx, sp, data, routes, evals, cache)
        ctx.sample(dict(spec=sp, routes=routes))


def one(pv, ctx, sp, data, routes, evals, cache, by=1):
    ctx.states += 1
    ctx.traces += 1
    try:
        sol = F.real_solution(pv, data, routes)
    except RuntimeError:  # legality is C03's concern
        return
    feas = M.solution_feasible(sp, routes, cache)
    for pen, ev in evals:
        ctx.transitions += 1
        want = M.solution_cost(sp, routes, pen, cache)
        want += (by - 1) * M.total_prizes(sp)
        got = ev.penalised_cost(sol)
        if got != want:
            ctx.fail(dict(spec=sp, routes=routes, pen=pen),
                     f"penalised cost: got {got}, want {want}")
        full = ev.cost(sol)
        exp = want if feas else M.INT_MAX
        if full != exp:
            ctx.fail(dict(spec=sp, routes=routes, pen=pen),
                     f"cost: got {full}, want {exp}")


def terms(pv, ctx):
    vals = [0, 1, 2, 3, 7, 10, 1000, 10**9, 2**32 + 5, 10**13]
    units = [0, 0.3, 1, 2.5, 20, 1000]
    for units3 in itertools.product(units, repeat=3):
        a, b, c = units3
        ev = pv.CostEvaluator([a, b], b, c)
        ctx.states += 1
        for x, cap in itertools.product(vals, repeat=2):
            ctx.transitions += 1
            ctx.traces += 1
            over = max(0, x - cap)
            for got, want in (
                (ev.load_penalty(x, cap, 0), int(over * a)),
                (ev.load_penalty(x, cap, 1), int(over * b)),
                (ev.tw_penalty(x), int(x * b)),
                (ev.dist_penalty(x, cap), int(over * c)),
            ):
                if got != want:
                    ctx.fail(dict(units=units3, x=x, cap=cap),
                             f"penalty: got {got}, want {want}")
    for bad in ([-1.0], 1, 1), ([1.0], -0.5, 1), ([1.0], 1, -2):
        try:
            pv.CostEvaluator(*bad)
            ctx.fail(dict(bad=bad), "negative penalty accepted")
        except ValueError:
            pass
    ctx.sample(dict(units=units3))
