"""C25: configuration files and command lines mean what they say."""

import contextlib
import io
import itertools
import multiprocessing
import os
import pathlib
import subprocess
import sys
import tempfile

from mc import families as F
from mc import model as M
from mc.props import c19

ID = "C25"
RULE = (
    "(a) every configuration file stating <= 3 (thorough: 4) of 17 parameters "
    "with two values each, and every subset of its sections: the parameters "
    "equal those stated and the defaults otherwise; every pair of "
    "configurations stating <= 1 parameter is equal exactly if they state "
    "the same; out of range values and unknown parameters are rejected; (b) "
    "for every instance of a set and every configuration changing <= 1 "
    "(thorough: 2) parameters, x seeds x with and without initial solution: "
    "the trace of solve() is that of the search put together by hand from the "
    "components and parameters configured; (c) every command line over 6 "
    "instance files, rounding functions, subsets of the stopping criteria, "
    "scaling, configuration, seeds and output folders, and every pair and "
    "triple of instances x number of processes: the table, solution and "
    "statistics files are those of solving each instance directly; unusable "
    "command lines are rejected without output"
)
ASSUMPTIONS = [
    "stopping criteria, file formats, and the search itself are decided by "
    "C11, C19 and C05-C10",
    "of run-times only a lower bound is checked",
]
TECHNIQUE = (
    "stateless model checking of the real command line and configuration "
    "code: exhaustive enumeration of all option and parameter combinations up "
    "to a bound, compared to a reference that composes the components itself"
)

# (section, parameter): two values that differ from the default.
KEYS = {
    ("ils", "num_iters_no_improvement"): (2, 5),
    ("ils", "history_length"): (1, 4),
    ("ils", "exhaustive_on_best"): (False, True),
    ("penalty", "solutions_between_updates"): (1, 3),
    ("penalty", "penalty_increase"): (2.5, 1.25),
    ("penalty", "penalty_decrease"): (0.5, 0.25),
    ("penalty", "target_feasible"): (0.9, 0.25),
    ("penalty", "feas_tolerance"): (0.0, 0.25),
    ("penalty", "min_penalty"): (2.5, 1),
    ("penalty", "max_penalty"): (10.0, 300),
    ("neighbourhood", "weight_wait_time"): (0.0, 1.5),
    ("neighbourhood", "num_neighbours"): (1, 3),
    ("neighbourhood", "symmetric_proximity"): (False, True),
    ("perturbation", "min_perturbations"): (2, 3),
    ("perturbation", "max_perturbations"): (4, 6),
    (None, "display_interval"): (10.0, 0.5),
    (None, "operators"): (
        ["Relocate1", "SwapTails"], ["Swap11", "Relocate2", "ReplaceGroup"],
    ),
}
SECTIONS = ("ils", "penalty", "neighbourhood", "perturbation")
BAD = [
    ("ils", "num_iters_no_improvement", -1), ("ils", "history_length", 0),
    ("ils", "history_length", -3), ("penalty", "solutions_between_updates", 0),
    ("penalty", "penalty_increase", 0.99), ("penalty", "penalty_decrease", 1.1),
    ("penalty", "penalty_decrease", -0.1), ("penalty", "target_feasible", 1.01),
    ("penalty", "target_feasible", -0.1), ("penalty", "feas_tolerance", 1.5),
    ("penalty", "feas_tolerance", -0.1), ("penalty", "min_penalty", -1),
    ("penalty", "max_penalty", 0.05), ("neighbourhood", "num_neighbours", 0),
    ("perturbation", "max_perturbations", 0),
    ("perturbation", "min_perturbations", 26),
    ("ils", "unknown", 1), ("penalty", "unknown", 1),
    ("neighbourhood", "unknown", 1), ("perturbation", "unknown", 1),
    (None, "operators", ["Relocate1", "NoSuchOperator"]),
]


def shards(tier):
    quick = tier == "quick"
    out = [dict(kind="bad"), dict(kind="pairs"), dict(kind="sections")]
    states = list(stated(3 if quick else 4))
    for chunk in F.chunks(states, 600):
        out.append(dict(kind="files", confs=chunk))
    for name in INSTANCES:
        for chunk in F.chunks(list(stated(1 if quick else 2)), 8):
            out.append(dict(kind="solves", name=name, confs=chunk))
    for name, mode, conf in itertools.product(FILES, MODES, (False, True)):
        out.append(dict(kind="single", name=name, mode=mode, conf=conf))
    names = list(FILES)
    multi = list(map(list, itertools.permutations(names, 2)))
    multi += [["basic", "infeasible", "many"], ["many", "mixed", "basic"]]
    if not quick:
        multi += list(map(list, itertools.permutations(names, 3)))
    for chunk in F.chunks(multi, 4):
        out.append(dict(kind="several", lists=chunk))
    out.append(dict(kind="unusable"))
    out.append(dict(kind="runtime"))
    return out


def stated(order):
    """All choices of at most that many parameters, as [[section, name, value]]."""
    for size in range(order + 1):
        for keys in itertools.combinations(KEYS, size):
            for vals in itertools.product(*(KEYS[k] for k in keys)):
                yield [[*k, v] for k, v in zip(keys, vals)]


def run(shard, ctx):
    with tempfile.TemporaryDirectory(prefix="verif-c25-") as tmp:
        globals()[shard["kind"]](ctx, shard, pathlib.Path(tmp))


# -- configuration files ----------------------------------------------------------


def toml(conf, extra=()):
    def show(val):
        if isinstance(val, bool):
            return str(val).lower()
        if isinstance(val, list):
            return "[" + ", ".join(f'"{v}"' for v in val) + "]"
        return str(val)

    lines = [f"{k} = {show(v)}" for s, k, v in conf if s is None]
    for sec in SECTIONS:
        rows = [f"{k} = {show(v)}" for s, k, v in conf if s == sec]
        if rows or sec in extra:
            lines += [f"[{sec}]", *rows]
    return "\n".join([*lines, ""])


def value(params, sec, key):
    got = getattr(params if sec is None else getattr(params, sec), key)
    if key == "operators":
        return [op.__name__ for op in got]
    return got


def allowed(conf, default):
    """Whether a configuration respects the relations between parameters."""
    vals = {(s, k): value(default, s, k) for s, k in KEYS}
    vals.update({(s, k): v for s, k, v in conf})
    return (
        vals["penalty", "min_penalty"] <= vals["penalty", "max_penalty"]
        and vals["perturbation", "min_perturbations"]
        <= vals["perturbation", "max_perturbations"]
    )


def by_hand(conf):
    """The same parameters, given to the constructors directly."""
    import pyvrp as pv
    from pyvrp import search as S

    args = {sec: {} for sec in SECTIONS}
    top = {}
    for sec, key, val in conf:
        if sec is not None:
            args[sec][key] = val
        elif key == "operators":
            top[key] = [getattr(S, name) for name in val]
        else:
            top[key] = val
    classes = dict(
        ils=pv.IteratedLocalSearchParams, penalty=pv.PenaltyParams,
        neighbourhood=S.NeighbourhoodParams,
        perturbation=S.PerturbationParams,
    )
    top.update({s: classes[s](**kw) for s, kw in args.items() if kw})
    return pv.SolveParams(**top)


def check_file(ctx, where, conf, extra, default):
    import pyvrp as pv

    where.write_text(toml(conf, extra))
    params = pv.SolveParams.from_file(where)
    want = {(s, k): value(default, s, k) for s, k in KEYS}
    want.update({(s, k): v for s, k, v in conf})
    ctx.states += 1
    ctx.transitions += len(KEYS)
    ctx.traces += 1
    for (sec, key), val in want.items():
        got = value(params, sec, key)
        ctx.check(
            got == val and isinstance(got, bool) == isinstance(val, bool),
            conf, f"{sec}.{key} is {got!r}, want {val!r}",
        )
    same = by_hand(conf)
    ctx.check(params == same and not params != same, conf,
              "differs from the parameters given directly")
    same = pv.SolveParams.from_file(str(where))
    ctx.check(params == same, conf, "differs when loaded again")
    ctx.check((params == default) == (all(
        v == value(default, s, k) for s, k, v in conf
    )), conf, "wrongly (un)equal to the defaults")


def files(ctx, shard, tmp):
    import pyvrp as pv

    default = pv.SolveParams()
    for conf in shard["confs"]:
        if allowed(conf, default):
            check_file(ctx, tmp / "conf.toml", conf, (), default)
        else:
            rejected(ctx, tmp / "conf.toml", conf)
    ctx.sample(conf)


def sections(ctx, shard, tmp):
    import pyvrp as pv

    default = pv.SolveParams()
    for size in range(len(SECTIONS) + 1):
        for extra in itertools.combinations(SECTIONS, size):
            check_file(ctx, tmp / "conf.toml", [], extra, default)
            for which in (0, 1):  # everything stated, in those sections
                conf = [
                    [s, k, v[which]] for (s, k), v in KEYS.items()
                    if s is None or s in extra
                ]
                check_file(ctx, tmp / "conf.toml", conf, extra, default)


def pairs(ctx, shard, tmp):
    import pyvrp as pv

    default = pv.SolveParams()
    confs = [c for c in stated(1) if allowed(c, default)]
    params = [by_hand(c) for c in confs]
    vals = [[value(p, s, k) for s, k in KEYS] for p in params]
    for one, two in itertools.product(range(len(confs)), repeat=2):
        ctx.states += 1
        ctx.transitions += 1
        same = vals[one] == vals[two]
        ctx.check(
            (params[one] == params[two]) == same
            and (params[one] != params[two]) != same,
            [confs[one], confs[two]], f"equal should be {same}",
        )
    for par in params:
        for other in (None, 1, "x", par.ils, par.penalty):
            ctx.check(par != other, repr(other), "equal to something else")


def rejected(ctx, where, conf):
    import pyvrp as pv

    ctx.states += 1
    ctx.transitions += 1
    where.write_text(toml(conf))
    try:
        pv.SolveParams.from_file(where)
    except (ValueError, TypeError, AttributeError):
        return
    ctx.fail(conf, "was accepted")


def bad(ctx, shard, tmp):
    for sec, key, val in BAD:
        rejected(ctx, tmp / "conf.toml", [[sec, key, val]])


# -- solve() ----------------------------------------------------------------------


def instance(name):
    if name == "ship":
        sp = F.make((), nc=3, ns=2, nv=2)
    elif name == "dims":
        sp = F.make((), nc=5, ns=0, nv=2)
        F.two_dims(sp)
    elif name == "group":
        sp = F.make((), nc=6, ns=0, nv=1)
        F.group(True)(sp)
    else:
        sp = F.make((), nc=6, ns=0, nv=2)
    for k, v in enumerate(sp["vtypes"]):
        v["num"] = 2
        v["cap"][0] = 4 + k
    for k, c in enumerate(sp["clients"]):
        c.update(e=3 * k, l=3 * k + 25, s=k % 3)
    return M.build(sp)


INSTANCES = ("plain", "ship", "dims", "group")


def observed(pv, algo_of, iters):
    """Runs a search, and returns everything an observer gets to see."""
    events = []

    class Watch(pv.IteratedLocalSearchCallbacks):
        def on_iteration(self, current, candidate, best, cost_evaluator):
            events.append((
                F.as_lists(current), F.as_lists(candidate), F.as_lists(best),
                [cost_evaluator.penalised_cost(s)
                 for s in (current, candidate, best)],
            ))

        def on_restart(self, best):
            events.append(("restart", F.as_lists(best)))

        def on_best(self, best):
            events.append(("best", F.as_lists(best)))

    res = algo_of(Watch(), pv.stop.MaxIterations(iters))
    return events, F.as_lists(res.best), res.num_iterations


def reference(data, params, seed, init, stats=True):
    """The search that a configuration describes."""
    import pyvrp as pv
    from pyvrp import search as S

    rng = pv.RandomNumberGenerator(seed=seed)
    ls = S.LocalSearch(
        data, rng, S.compute_neighbours(data, params.neighbourhood),
        S.PerturbationManager(params.perturbation),
    )
    for op in params.operators:
        if op.supports(data):
            ls.add_operator(op(data))
    low, high = params.penalty.min_penalty, params.penalty.max_penalty
    mid = (low + high) / 2
    pm = pv.PenaltyManager(
        ([mid] * data.num_load_dimensions, mid, mid), params.penalty
    )
    if init is None:
        init = ls(
            pv.Solution.make_random(data, rng), pm.max_cost_evaluator(),
            exhaustive=True,
        )
    return pv.IteratedLocalSearch(data, pm, ls, init, params.ils)


def solves(ctx, shard, tmp):
    import dataclasses

    import pyvrp as pv

    data = instance(shard["name"])
    default = pv.SolveParams()
    given = pv.Solution.make_random(data, pv.RandomNumberGenerator(seed=9))
    # On top of settings under which all parameters soon matter.
    base = [
        ["penalty", "solutions_between_updates", 4],
        ["penalty", "max_penalty", 60.0],
        ["ils", "num_iters_no_improvement", 9], ["ils", "history_length", 3],
        ["neighbourhood", "num_neighbours", 2],
        ["perturbation", "max_perturbations", 5],
    ]
    for conf in shard["confs"]:
        stated = {(s, k) for s, k, _ in conf}
        for extra in ([], base):
            full = conf + [b for b in extra if (b[0], b[1]) not in stated]
            if not allowed(full, default):
                continue
            params = by_hand(full)
            for seed, init in itertools.product(
                (None, 0, 1, 42), (None, given)
            ):
                chosen = {} if seed is None else dict(seed=seed)

                def with_(watch):
                    return pv.SolveParams(
                        dataclasses.replace(params.ils, callbacks=watch),
                        params.penalty, params.neighbourhood,
                        params.operators, params.display_interval,
                        params.perturbation,
                    )

                def got(watch, stop):
                    return pv.solve(
                        data, stop, params=with_(watch),
                        initial_solution=init, **chosen,
                    )

                def want(watch, stop):
                    return reference(
                        data, with_(watch), seed or 0, init
                    ).run(stop)

                def case():
                    return dict(instance=shard["name"], conf=full, seed=seed,
                                initial=init is not None)

                one = observed(pv, got, 25)
                two = observed(pv, want, 25)
                ctx.states += 1
                ctx.transitions += len(two[0])
                ctx.traces += 1
                if one != two:
                    k = next(
                        (k for k, (a, b) in enumerate(zip(one[0], two[0]))
                         if a != b), -1,
                    )
                    ctx.fail(case(), f"searches differ at event {k}: "
                             f"{one[0][k]}, want {two[0][k]}")
    for low, high in itertools.product((0, 0.1, 1, 7), (7, 10, 1000.5)):
        pen = pv.PenaltyParams(min_penalty=low, max_penalty=high)
        loads, tw, dist = pen.midpoint_penalties(data)
        mid = (low + high) / 2
        ctx.check(
            len(loads) == data.num_load_dimensions
            and all(abs(x - mid) < 1e-9 for x in (*loads, tw, dist)),
            (low, high), f"midpoint {loads} {tw} {dist}",
        )
    ctx.sample(dict(instance=shard["name"], conf=conf))


# -- the command line -------------------------------------------------------------


def many(frac):
    """A larger instance, whose search depends on seed and parameters."""
    num = 15
    d = dict(specs={}, secs={})
    d["specs"].update(
        VEHICLES=5, DIMENSION=num, CAPACITY=12, EDGE_WEIGHT_TYPE="EUC_2D",
    )
    off = 0.3 if frac else 0
    if not frac:
        d["specs"]["EDGE_WEIGHT_TYPE"] = "CEIL_2D"
    d["secs"]["NODE_COORD"] = [
        [i + 1, 7 * i * i % 53 + off, 11 * i * i * i % 61] for i in range(num)
    ]
    d["secs"]["DEMAND"] = [
        [i + 1, 0 if i == 0 else i % 4 + 1] for i in range(num)
    ]
    d["secs"]["TIME_WINDOW"] = [
        [i + 1, *((0, 500) if i == 0 else (9 * i, 9 * i + 150 + off))]
        for i in range(num)
    ]
    d["secs"]["DEPOT"] = [[1], [-1]]
    return c19.text(d)


FILES = {
    "basic": lambda frac: c19.text(c19.describe(dict(depot="one"), frac)),
    "mixed": lambda frac: c19.text(c19.describe(
        dict(demand="demand", capacity="section", tw="section"), frac
    )),
    "infeasible": lambda frac: c19.text(c19.describe(
        dict(demand="demand", capacity="spec"), frac
    )).replace("CAPACITY : 20", "CAPACITY : 1"),
    "pickups": lambda frac: c19.text(c19.describe(dict(pd="yes"), frac)),
    "prizes": lambda frac: c19.text(c19.describe(
        dict(prize="some", group="one"), frac
    )),
    "many": many,
}
MODES = [None, "none", "round", "trunc", "dimacs", "exact"]
STOPS = [
    dict(max_iterations=6), dict(max_iterations=1), dict(no_improvement=3),
    dict(max_iterations=9, no_improvement=4),
    dict(max_iterations=2, no_improvement=50),
    dict(max_iterations=3, max_runtime=5000),
    dict(max_iterations=40, no_improvement=2, max_runtime=5000.5),
]
CONF = [
    ["ils", "num_iters_no_improvement", 3], ["ils", "history_length", 2],
    ["penalty", "solutions_between_updates", 2],
    ["penalty", "max_penalty", 20], ["neighbourhood", "num_neighbours", 2],
    ["perturbation", "max_perturbations", 3],
    [None, "operators", ["Relocate1", "Swap11", "SwapTails"]],
]


def write_file(tmp, name, mode):
    where = tmp / f"{name}.vrp"
    where.write_text(FILES[name](mode not in (None, "none")))
    return where


def cli(args):
    """(exit code, printed text) of the command line program."""
    from pyvrp import cli as prog

    # Several instances are solved by processes of their own.
    multiprocessing.current_process()._config["daemon"] = False
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["pyvrp", *map(str, args)]
    try:
        with contextlib.redirect_stdout(out):
            with contextlib.redirect_stderr(io.StringIO()):
                prog.main()
        code = 0
    except SystemExit as err:
        code = err.code
    finally:
        sys.argv = old
    return code, out.getvalue()


def direct(where, mode, stops, per_client, conf, seed):
    """Solves an instance file directly."""
    import pyvrp as pv
    from pyvrp import stop as T

    data = pv.read(where, mode or "none")
    by = data.num_clients if per_client else 1
    crit = []
    if "max_iterations" in stops:
        crit.append(T.MaxIterations(stops["max_iterations"] * by))
    if "no_improvement" in stops:
        crit.append(T.NoImprovement(stops["no_improvement"] * by))
    res = pv.solve(
        data, T.MultipleCriteria(crit), seed,
        params=by_hand(CONF) if conf else pv.SolveParams(),
    )
    return data, res


def table(text):
    """Rows and summary lines of the printed table."""
    rows, summary = [], {}
    lines = [ln for ln in text.splitlines() if ln.strip()]
    for ln in lines:
        cells = ln.split()
        if ":" in ln:
            key, _, val = ln.partition(":")
            summary[key.strip()] = val.strip()
        elif len(cells) == 5 and cells[1] in ("Y", "N"):
            rows.append(cells)
    return rows, summary


def check_table(ctx, case, text, wants, least=0.0):
    """wants: (name, result) in the order of the rows."""
    rows, summary = table(text)
    ctx.equal([r[0] for r in rows], [n for n, _ in wants], case, "instances")
    if len(rows) != len(wants):
        return
    objs, nums, times, bad = [], [], [], 0
    for row, (name, res) in zip(rows, wants):
        obj = round(res.cost(), 2)
        ctx.equal(row[1], "Y" if res.is_feasible() else "N", case, "OK")
        ctx.equal(float(row[2]), float(obj), case, "objective")
        ctx.equal(int(row[3]), res.num_iterations, case, "iterations")
        ctx.check(float(row[4]) >= least, case, f"time {row[4]} < {least}")
        objs.append(float(row[2]))
        nums.append(int(row[3]))
        times.append(float(row[4]))
        bad += row[1] == "N"
    num = len(rows)
    ctx.equal(summary.get("Avg. objective"), f"{sum(objs) / num:.0f}", case,
              "average objective")
    avg = float(summary.get("Avg. iterations", "nan"))
    ctx.check(abs(avg - sum(nums) / num) <= 0.5, case, f"iterations {avg}")
    avg = float(summary.get("Avg. run-time", "nan").rstrip("s"))
    ctx.check(abs(avg - sum(times) / num) <= 0.0051, case, f"runtime {avg}")
    ctx.equal(summary.get("Total not OK"), str(bad), case, "not OK")


def check_sol(ctx, case, where, data, res):
    import pyvrp as pv

    if not where.exists():
        ctx.fail(case(), f"no file {where.name}")
        return
    again = pv.read_solution(where, data)
    ctx.check(again == res.best, case, "another solution in file")
    cost = [ln for ln in where.read_text().splitlines() if "Cost" in ln]
    ctx.equal(cost, [f"Cost: {round(res.cost(), 2)}"], case, "cost in file")


def check_stats(ctx, case, where, res):
    import pyvrp as pv

    if not where.exists():
        ctx.fail(case(), f"no file {where.name}")
        return
    got = pv.Statistics.from_csv(where)
    ctx.equal(got.num_iterations, res.num_iterations, case, "rows in file")
    ctx.check(
        [vars(d) if hasattr(d, "__dict__") else d for d in got.data]
        == [vars(d) if hasattr(d, "__dict__") else d for d in res.stats.data],
        case, "other statistics in file",
    )


def single(ctx, shard, tmp):
    name, mode, conf = shard["name"], shard["mode"], shard["conf"]
    where = write_file(tmp, name, mode)
    if conf:
        (tmp / "conf.toml").write_text(toml(CONF))
    for num, (stops, per, seed) in enumerate(
        itertools.product(STOPS, (False, True), (1, 7))
    ):
        data, res = direct(where, mode, stops, per, conf, seed)
        for sol, stat in itertools.product(("no", "old", "new"), repeat=2):
            out = tmp / f"out-{num}-{sol}-{stat}"
            args = [where, "--seed", seed]
            for key, val in stops.items():
                args += [f"--{key}", val]
            if per:
                args.append("--per_client")
            if mode is not None:
                args += ["--round_func", mode]
            if conf:
                args += ["--config_loc", tmp / "conf.toml"]
            spots = {}
            for opt, kind in (("sol", sol), ("stats", stat)):
                if kind == "no":
                    continue
                spot = spots[opt] = out / opt / "a" / "b"
                args += [f"--{opt}_dir", spot]
                if kind == "old":
                    spot.mkdir(parents=True)
                    ext = "sol" if opt == "sol" else "csv"
                    (spot / f"{name}.{ext}").write_text("stale " * 5000)
                    (spot / "other.txt").write_text("kept")

            def case():
                return [str(a).replace(str(tmp), "TMP") for a in args]

            ctx.states += 1
            ctx.transitions += res.num_iterations
            ctx.traces += 1
            code, text = cli(args)
            if code != 0:
                ctx.fail(case(), f"exit code {code}")
                continue
            check_table(ctx, case, text, [(name, res)])
            if "sol" in spots:
                check_sol(ctx, case, spots["sol"] / f"{name}.sol", data, res)
            if "stats" in spots:
                check_stats(ctx, case, spots["stats"] / f"{name}.csv", res)
            for spot in spots.values():
                left = sorted(p.name for p in spot.iterdir())
                kept = (spot / "other.txt").exists()
                ctx.check(len(left) == 1 + kept, case, f"files {left}")
            made = out.exists()
            ctx.check(made == bool(spots), case, "files written")
    ctx.sample(case())


def several(ctx, shard, tmp):
    for names, procs, conf in itertools.product(
        shard["lists"], (1, 2), (False, True)
    ):
        mode = "round" if conf else None
        paths = []
        for pos, name in enumerate(names):  # not in order of their names
            spot = tmp / f"dir{len(names) - pos}"
            spot.mkdir(exist_ok=True)
            paths.append(write_file(spot, name, mode))
        out = tmp / f"{'-'.join(names)}-{procs}-{conf}"
        args = [*paths, "--seed", 3, "--max_iterations", 5, "--num_procs",
                procs, "--sol_dir", out / "sol", "--stats_dir", out / "stat"]
        if conf:
            (tmp / "conf.toml").write_text(toml(CONF))
            args += ["--config_loc", tmp / "conf.toml", "--round_func", mode]

        def case():
            return [str(a).replace(str(tmp), "TMP") for a in args]

        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += len(names)
        code, text = cli(args)
        if code != 0:
            ctx.fail(case(), f"exit code {code}")
            continue
        wants = []
        for path in sorted(paths):
            data, res = direct(
                path, mode, dict(max_iterations=5), False, conf, 3
            )
            wants.append((path.stem, res))
            check_sol(ctx, case, out / "sol" / f"{path.stem}.sol", data, res)
            check_stats(ctx, case, out / "stat" / f"{path.stem}.csv", res)
        # Rows identify their instances, so may come in any order.
        rows, _ = table(text)
        order = [r[0] for r in rows]
        if sorted(order) == sorted(n for n, _ in wants):
            wants.sort(key=lambda w: order.index(w[0]))
        check_table(ctx, case, text, wants)


def unusable(ctx, shard, tmp):
    where = write_file(tmp, "basic", None)
    out = tmp / "out"
    good = [where, "--seed", 1, "--max_iterations", 2]
    lines = dict(
        no_seed=[where, "--max_iterations", 2],
        no_instance=["--seed", 1, "--max_iterations", 2],
        rounding=[*good, "--round_func", "unknown"],
        seed=[where, "--seed", "x", "--max_iterations", 2],
        iterations=[where, "--seed", 1, "--max_iterations", "x"],
        fraction=[where, "--seed", 1, "--max_iterations", "2.5"],
        stagnant=[where, "--seed", 1, "--no_improvement", "x"],
        runtime=[where, "--seed", 1, "--max_runtime", "x"],
        unknown=[*good, "--no_such_option", 3],
        procs=[*good, "--num_procs", "x"],
        missing=[tmp / "missing.vrp", *good[1:]],
        no_config=[*good, "--config_loc", tmp / "missing.toml"],
        negative=[where, "--seed", 1, "--max_iterations", -1],
        negative_stagnant=[where, "--seed", 1, "--no_improvement", -1],
        negative_runtime=[where, "--seed", 1, "--max_runtime", -1],
    )
    for name, args in lines.items():
        ctx.states += 1
        ctx.transitions += 1
        try:
            code, text = cli([*args, "--sol_dir", out, "--stats_dir", out])
        except Exception:
            code, text = 1, ""
        ctx.check(code not in (0, None), name, "was accepted")
        ctx.check(not out.exists(), name, "wrote files")
        ctx.check(not table(text)[0], name, "printed results")
    # As a program of its own.
    import pyvrp as pv

    root = pathlib.Path(pv.__file__).resolve().parent.parent
    env = dict(os.environ, PYTHONPATH=str(root))
    for args, ok in ((good, True), (lines["no_seed"], False)):
        res = subprocess.run(
            [sys.executable, "-m", "pyvrp.cli", *map(str, args)],
            env=env, capture_output=True, text=True, cwd=tmp,
        )
        ctx.check((res.returncode == 0) == ok, args[1:], res.stderr[-300:])
        if ok:
            _, want = direct(
                where, None, dict(max_iterations=2), False, False, 1
            )
            check_table(ctx, str(args[1:]), res.stdout, [("basic", want)])


def runtime(ctx, shard, tmp):
    """The time limit alone stops the search, and not too early."""
    where = write_file(tmp, "basic", None)
    for limit, per in ((0.05, False), (0.1, False), (0.05, True)):
        args = [where, "--seed", 1, "--max_runtime", limit]
        code, text = cli([*args, *(["--per_client"] if per else [])])
        rows, _ = table(text)
        ctx.states += 1
        ctx.traces += 1
        least = limit * (4 if per else 1)
        ctx.check(
            code == 0 and len(rows) == 1 and rows[0][1] == "Y"
            and float(rows[0][4]) >= least - 0.001,
            (limit, per), f"rows {rows}",
        )
