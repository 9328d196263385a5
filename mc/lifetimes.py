"""Explores what happens to objects when those they were obtained from go away.

Run as a program of its own, with the C allocator told to overwrite released
memory, so that use of released memory changes values (or crashes). Arguments:
directory to import pyvrp from, root name, depth. Prints one line per path of
accessors explored, and `BAD path: what` for every value that changed.
"""

import gc
import itertools
import json
import sys

MUTATORS = {
    "clear", "update", "reset", "shuffle", "append", "insert", "swap", "load",
    "perturb", "jump", "rand", "randint", "load_solution", "init", "replace",
    "mark_promising", "mark_all_promising", "unmark_all_promising", "apply",
    "add_operator", "make_random", "supports", "evaluate", "min", "max",
    "unload", "from_csv", "to_csv", "from_file",
}
SAFE = {"load": ("Route",)}  # search.Route.load() is an accessor


def spec():
    from mc import families as F

    sp = F.make((), nc=4, ns=2, nv=2)
    F.two_dims(sp)
    sp["vtypes"][0].update(num=2, reload=[0, 1], cap=[40, 40])
    sp["vtypes"][1].update(num=2, prof=1, cap=[30, 30], init=[1, 2])
    sp["groups"] = [dict(clients=[2, 3], req=True)]
    for idx in (2, 3):
        sp["clients"][idx].update(g=0, req=False)
    for kind in ("clients", "depots", "ships", "vtypes"):
        for idx, item in enumerate(sp[kind]):
            if "name" in item:
                item["name"] = f"{kind} number {idx}, long enough to be stored"
    return sp


ROUTES = [(0, ["C0", "L0", "U0", "D1", "C1"]), (1, ["L1", "C2", "U1"])]


def roots():
    """name -> function that makes the object, holding nothing else."""
    import pyvrp as pv
    from mc import model as M
    from pyvrp import search as S
    from pyvrp.search import _search as RAW

    sp = spec()
    kinds = dict(
        C=pv.ActivityType.CLIENT, D=pv.ActivityType.DEPOT,
        L=pv.ActivityType.PICKUP, U=pv.ActivityType.DELIVERY,
    )

    def act(text):
        return pv.Activity(kinds[text[0]], int(text[1:]))

    def data():
        return M.build(sp)

    def route():
        return pv.Route(data(), [act(a) for a in ROUTES[0][1]], 0)

    def solution():
        d = data()
        return pv.Solution(
            d, [pv.Route(d, [act(a) for a in acts], k) for k, acts in ROUTES]
        )

    def search_route():
        r = RAW.Route(data(), 0)
        for a in ROUTES[0][1]:
            r.append(RAW.Node(act(a)))
        r.update()
        return r

    def bare_route():
        return RAW.Route(data(), 1)

    def search_node():
        return search_route()[1]

    def free_node():
        return RAW.Node(act("C1"))

    def search_solution():
        s = RAW.Solution(data())
        s.load(solution())
        return s

    def space():
        d = data()
        return RAW.SearchSpace(d, S.compute_neighbours(d))

    def local_search():
        d = data()
        ls = RAW.LocalSearch(
            d, S.compute_neighbours(d),
            S.PerturbationManager(S.PerturbationParams(2, 3)),
        )
        for op in S.OPERATORS:
            if op.supports(d):
                ls.add_operator(op(d))
        return ls

    def wrapped_search():
        d = data()
        ls = S.LocalSearch(
            d, pv.RandomNumberGenerator(seed=3), S.compute_neighbours(d)
        )
        for op in S.OPERATORS:
            if op.supports(d):
                ls.add_operator(op(d))
        return ls

    def result():
        return pv.Result(solution(), pv.Statistics(), 3, 1.5)

    out = dict(
        data=data, route=route, solution=solution, search_route=search_route,
        bare_route=bare_route,
        search_node=search_node, free_node=free_node,
        search_solution=search_solution, space=space,
        local_search=local_search, wrapped_search=wrapped_search,
        result=result,
        location=lambda: pv.Location(1, 2, name="a name that is quite long"),
        client=lambda: data().client(0), depot=lambda: data().depot(1),
        shipment=lambda: data().shipment(1), group=lambda: data().group(0),
        vehicle_type=lambda: data().vehicle_type(1),
        activity=lambda: act("C3"),
        bitset=lambda: pv.DynamicBitset(130),
        neighbours=lambda: S.compute_neighbours(data()),
        function=lambda: pv.PiecewiseLinearFunction(
            [5, 10], [(1, 2), (11, 3), (26, 4)]
        ),
        visit=lambda: search_solution()[act("C0")],
        rng=lambda: pv.RandomNumberGenerator(seed=4),
        evaluator=lambda: pv.CostEvaluator([1, 2], 3, 4),
        params=lambda: pv.SolveParams(),
    )
    for op in S.OPERATORS:
        out[f"op_{op.__name__}"] = lambda op=op: op(data())
    return out


def uses():
    """name -> function that uses the object, for a comparable outcome."""
    import pyvrp as pv
    from pyvrp.search import _search as RAW

    make = roots()
    ev = pv.CostEvaluator([3, 4], 2, 5)

    def lists(sol):
        return [(r.vehicle_type(), [str(a) for a in r]) for r in sol.routes()]

    def raw_search(ls):
        ls.shuffle(pv.RandomNumberGenerator(seed=8))
        return [
            lists(ls(make["solution"](), ev, exhaustive=how))
            for how in (False, True, False)
        ]

    def wrapped(ls):
        return [
            lists(ls(make["solution"](), ev, exhaustive=how))
            for how in (False, True)
        ]

    def unload(sol):
        return lists(sol.unload())

    def edit(route):
        out = [str(route), route.duration(), route.load()]
        route.append(RAW.Node("C3"))
        route.update()
        out += [str(route), route.duration(), route.distance()]
        del route[1]
        route.update()
        return [*out, str(route), route.load(), route.time_warp()]

    def reorder(space):
        space.shuffle(pv.RandomNumberGenerator(seed=2))
        space.mark_all_promising()
        return [str(a) for a in space.activity_order()]

    def evaluate(op):
        """A search with that operator only, on data of its own."""
        from pyvrp import search as S

        d = make["data"]()
        ls = RAW.LocalSearch(
            d, S.compute_neighbours(d),
            S.PerturbationManager(S.PerturbationParams(0, 0)),
        )
        ls.add_operator(op)
        found = [
            lists(ls(
                pv.Solution.make_random(
                    d, pv.RandomNumberGenerator(seed=seed)
                ), ev, exhaustive=True,
            )) for seed in range(6)
        ]
        return [found, op.statistics.num_evaluations]

    ops = {name: evaluate for name in make if name.startswith("op_")}
    return dict(
        **ops, local_search=raw_search, wrapped_search=wrapped,
        search_solution=unload, search_route=edit, space=reorder,
        solution=lambda s: [
            ev.penalised_cost(s), s == make["solution"](), hash(s),
            [str(a) for a in s.unplanned()] if hasattr(s, "unplanned") else 0,
        ],
        route=lambda r: [r == make["route"](), str(r)],
        data=lambda d: [
            d == make["data"](), lists(pv.Solution.make_random(
                d, pv.RandomNumberGenerator(seed=5)
            )),
        ],
        result=lambda r: [str(r), r.cost()],
    )


def names(obj):
    kind = type(obj)
    if kind.__module__.split(".")[0] != "pyvrp":
        return []
    out = []
    for name in dir(obj):
        if name.startswith("_"):
            continue
        if name in MUTATORS and kind.__name__ not in SAFE.get(name, ()):
            continue
        if name in SAFE and kind.__module__ == "pyvrp._pyvrp":
            continue
        out.append(name)
    return out


def steps(obj):
    """(label, function) for everything that can be obtained from an object."""
    if isinstance(obj, (list, tuple)):
        for idx in range(min(len(obj), 3)):
            yield f"[{idx}]", lambda o, idx=idx: o[idx]
        return
    if isinstance(obj, dict):
        if obj:
            yield "[key]", lambda o: o[next(iter(o))]
        return
    for name in names(obj):
        try:
            val = getattr(obj, name)
        except Exception:
            continue
        if not callable(val) or type(val).__module__.startswith("pyvrp"):
            yield f".{name}", lambda o, name=name: getattr(o, name)
            continue
        for args in ((), (0,), (0, 1)):
            try:
                val(*args)
            except Exception:
                continue
            yield (
                f".{name}{args}",
                lambda o, name=name, args=args: getattr(o, name)(*args),
            )
    if hasattr(obj, "__iter__") and not isinstance(obj, str) and hasattr(
        type(obj), "__module__"
    ) and type(obj).__module__.startswith("pyvrp"):
        yield "iter", lambda o: Iter(o)
    if hasattr(obj, "__getitem__") and type(obj).__module__.startswith("pyvrp"):
        for idx in (0, 1, -1):
            try:
                obj[idx]
            except Exception:
                continue
            yield f"[{idx}]", lambda o, idx=idx: o[idx]


class Iter:
    """A partly consumed iterator (and what it should give)."""

    def __init__(self, obj):
        self.rest = iter(obj)
        self.got = list(itertools.islice(self.rest, 1))


def atom(val):
    return val is None or isinstance(val, (bool, int, float, str, bytes))


def snap(obj, depth, label=""):
    """Comparable form of everything observable about an object."""
    if atom(obj):
        return obj
    kind = type(obj)
    if kind.__name__ == "ndarray":
        return obj.tolist()
    if kind.__module__ == "numpy":
        return obj.item()
    if kind.__module__.startswith("pyvrp") and hasattr(kind, "__members__"):
        return str(obj)
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [snap(o, depth) for o in obj]
    if isinstance(obj, dict):
        return [(snap(k, depth), snap(v, depth)) for k, v in obj.items()]
    if not kind.__module__.startswith("pyvrp") or depth == 0:
        return kind.__name__
    out = {"type": kind.__name__}
    if kind.__str__ is not object.__str__ and kind.__module__.startswith(
        ("pyvrp._pyvrp", "pyvrp.search._search")
    ):
        text = str(obj)
        if " object at 0x" not in text:
            out["str"] = text
    for lab, func in steps(obj):
        if lab == "iter":
            continue
        try:
            out[lab] = snap(func(obj), depth - 1)
        except Exception as err:
            out[lab] = type(err).__name__
    return out


def scribble():
    """Releases what is garbage, and reuses the memory for something else."""
    gc.collect()
    junk = [bytearray(b"\xd7") * size for size in range(16, 700, 8)]
    junk += [bytes([0xD7]) * size for size in range(16, 700, 8)]
    del junk
    gc.collect()


def obtain(make, path, keep):
    """Walks a path of accessors, keeping the chosen holders alive."""
    held = []
    obj = make()
    for pos, func in enumerate(path):
        if pos in keep:
            held.append(obj)
        obj = func(obj)
    return obj, held


def explore(make, depth, say):
    """Returns the number of release patterns explored."""
    total = 0

    def visit(path, labels):
        sample, held = obtain(make, path, range(len(path)))
        if isinstance(sample, Iter) or atom(sample):
            return
        more = list(steps(sample)) if len(path) < depth else []
        del sample, held
        for label, func in more:
            full, text = [*path, func], [*labels, label]
            say(text)
            # Every subset of the holders is released.
            for num in range(len(full)):
                for keep in itertools.combinations(range(len(full)), num):
                    check(full, text, keep)
            visit(full, text)

    def check(path, labels, keep):
        nonlocal total
        total += 1
        obj, held = obtain(make, path, keep)
        if atom(obj):
            return
        if isinstance(obj, Iter):
            twin = obtain(make, path[:-1], range(len(path)))
            want = [snap(o, 1) for o in twin[0]]
            del twin
            scribble()
            got = [snap(o, 1) for o in [*obj.got, *obj.rest]]
        else:
            twin = obtain(make, path, range(len(path)))
            want = snap(twin[0], 2)
            del twin
            scribble()
            got = snap(obj, 2)
        if got != want:
            say(labels, f"released {len(path) - len(keep)} holders: value "
                        f"{diff(got, want)}")

    visit([], [])
    return total


def diff(got, want):
    if isinstance(got, dict) and isinstance(want, dict):
        for key in want:
            if got.get(key) != want[key]:
                return f"{key} {diff(got.get(key), want[key])}"
    if isinstance(got, list) and isinstance(want, list):
        for one, two in zip(got, want):
            if one != two:
                return diff(one, two)
    return f"{str(got)[:60]} was {str(want)[:60]}"


def main():
    where, name, depth = sys.argv[1:4]
    sys.path.insert(0, where)
    total = 0

    def say(labels, what=None):
        nonlocal total
        total += 1
        text = name + "".join(labels)
        if what is None:
            print("AT", text, flush=True)
        else:
            print("BAD", text, what, flush=True)

    make = roots()[name]
    print("COUNT", explore(make, int(depth), say), flush=True)
    if name in uses():
        print("AT", name, "use", flush=True)
        use = uses()[name]
        d = make()
        scribble()
        got = use(d)
        again = make()
        want = use(again)
        if json.dumps(got, default=str) != json.dumps(want, default=str):
            print("BAD", name, "use gives", str(got)[:200], "and",
                  str(want)[:200], flush=True)
    print("DONE", total, flush=True)


if __name__ == "__main__":
    main()
