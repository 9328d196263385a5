"""C21: random numbers and random solutions are valid and reproducible."""

import itertools

from mc import families as F
from mc import model as M

ID = "C21"
RULE = (
    "every seed in [0, 8191] and around every power of two, and every state "
    "over a set of extreme words, run for 48 steps against a reference "
    "generator; every sequence of <= 5 (thorough: 6) generator operations "
    "(draw, real, integer in range, save and restore) from 4 seeds; random "
    "solutions of every instance of 0-4 clients, 0-2 shipments, 6 fleets and "
    "every group and prize feature: every combination of outcomes of the "
    "first four random draws (by inverting the generator) and 6000 "
    "consecutive solutions from one generator, each result being "
    "checked for legality, completeness and reproducibility, and their union "
    "for containing every admissible selection, every visit order and every "
    "vehicle type"
)
ASSUMPTIONS = ["draws after the fourth follow from the first four"]
MASK = 2**32 - 1


def shards(tier):
    quick = tier == "quick"
    out = []
    for part in range(8):
        out.append(dict(kind="seeds", part=part))
        out.append(dict(kind="ops", part=part, depth=5 if quick else 6))
    out.append(dict(kind="states"))
    out.append(dict(kind="ranges"))
    fleets = [[1], [2], [1, 1], [1, 2], [3, 1], [1, 1, 2]]
    for nc in range(5):
        for ns in range(3):
            if nc + ns == 0:
                continue
            for fleet in fleets:
                out.append(dict(kind="sols", nc=nc, ns=ns, fleet=fleet,
                                wide=not quick))
    return out


def run(shard, ctx):
    globals()[shard["kind"]](ctx, shard)


# -- reference generator (Marsaglia's xor128) ---------------------------------


def step(state):
    a, b, c, d = state
    t = (d ^ (d << 11)) & MASK
    t ^= t >> 8
    new = t ^ a ^ (a >> 19)
    return (new, a, b, c)


def unstep(state):
    new, a, b, c = state
    t = new ^ a ^ (a >> 19)
    t = t ^ (t >> 8) ^ (t >> 16) ^ (t >> 24)
    d = (t ^ (t << 11) ^ (t << 22)) & MASK
    return (a, b, c, d)


def before(draws):
    """The state whose next four numbers are the given ones."""
    state = tuple(reversed(draws))
    for _ in range(4):
        state = unstep(state)
    return state


# -- generator ------------------------------------------------------------------


def follow(ctx, rng, state, steps, case):
    for _ in range(steps):
        ctx.transitions += 1
        state = step(state)
        got = rng()
        if got != state[0] or tuple(rng.state()) != state:
            ctx.fail(case(), f"number {got}, state {tuple(rng.state())}, "
                             f"want {state}")
            return


def seeds(ctx, shard):
    import pyvrp as pv

    want = set(range(8192))
    for k in range(33):
        want |= {(1 << k) + d for d in range(-2, 3)}
    want = sorted(s for s in want if 0 <= s <= MASK)
    for seed in want[shard["part"] :: 8]:
        ctx.states += 1
        ctx.traces += 1
        rng = pv.RandomNumberGenerator(seed=seed)
        state = (seed, 123456789, 362436069, 521288629)
        if tuple(rng.state()) != state:
            ctx.fail(dict(seed=seed), f"initial state {rng.state()}")
        follow(ctx, rng, state, 48, lambda: dict(seed=seed))


def states(ctx, shard):
    import pyvrp as pv

    words = (0, 1, 2**31, 2**31 - 1, MASK, 123456789)
    for state in itertools.product(words, repeat=4):
        ctx.states += 1
        ctx.traces += 1
        rng = pv.RandomNumberGenerator(state=state)
        if tuple(rng.state()) != state:
            ctx.fail(dict(state=state), f"initial state {rng.state()}")
        follow(ctx, rng, state, 48, lambda: dict(state=state))
        assert unstep(step(state)) == state
    rng = pv.RandomNumberGenerator(1)
    cls = pv.RandomNumberGenerator
    ctx.equal((cls.min(), cls.max()), (0, MASK), {}, "range")


def ranges(ctx, shard):
    """Integers in range with each value reachable; reals in [0, 1]."""
    import pyvrp as pv

    draws = [*range(256), 2**31 - 1, 2**31, 2**31 + 1, MASK - 1, MASK]
    for high in (*range(1, 65), 100, 2**16, 2**31 - 1):
        seen = set()
        for draw in draws:
            ctx.states += 1
            ctx.transitions += 1
            state = before((draw, 5, 6, 7))
            got = pv.RandomNumberGenerator(state=state).randint(high)
            if not 0 <= got < high or got != draw % high:
                ctx.fail(dict(state=state, high=high), f"randint {got}")
            seen.add(got)
        if high <= 256 and seen != set(range(high)):
            ctx.fail(dict(high=high), f"unreachable: {set(range(high))-seen}")
    for draw in draws:
        ctx.states += 1
        ctx.transitions += 1
        state = before((draw, 5, 6, 7))
        got = pv.RandomNumberGenerator(state=state).rand()
        if not 0 <= got <= 1 or got != draw / MASK:
            ctx.fail(dict(state=state), f"rand {got}, want {draw / MASK}")


def ops(ctx, shard):
    import pyvrp as pv

    alphabet = ["call", "rand", "int1", "int2", "int7", "int2147483647",
                "save", "fork"]
    first = alphabet[shard["part"]]
    for seed in (0, 1, 42, MASK):
        for rest in itertools.product(alphabet, repeat=shard["depth"] - 1):
            ctx.states += 1
            rng = pv.RandomNumberGenerator(seed=seed)
            state = (seed, 123456789, 362436069, 521288629)
            other = None  # forked generator and its reference state
            good = True
            for op in (first, *rest):
                ctx.transitions += 1
                if op == "save":
                    got, want = tuple(rng.state()), state
                elif op == "fork":
                    # Continue on a restored generator; the old one must not
                    # be affected by it.
                    old = (rng, state)
                    rng = pv.RandomNumberGenerator(state=rng.state())
                    got, want = tuple(rng.state()), state
                    if other is not None:
                        good = good and tuple(other[0].state()) == other[1]
                    other = old
                else:
                    state = step(state)
                    if op == "call":
                        got, want = rng(), state[0]
                    elif op == "rand":
                        got, want = rng.rand(), state[0] / MASK
                    else:
                        high = int(op[3:])
                        got, want = rng.randint(high), state[0] % high
                good = good and got == want
            if other is not None:
                good = good and tuple(other[0].state()) == other[1]
            ctx.traces += 1
            if not good:
                ctx.fail(dict(seed=seed, ops=[first, *rest]),
                         f"last got {got}, want {want}")


# -- random solutions -------------------------------------------------------------

FEATS = [
    {}, dict(prize="all"), dict(prize="opt"), dict(group="req"),
    dict(group="opt"), dict(prize="all", group="req"),
    dict(prize="opt", group="opt"),
]
DRAWS = [*range(4), *(2**31 + k for k in range(4))]
WIDE = [*range(6), *(2**31 + k for k in range(6)), MASK]
STREAM = 6000


def sources(pv, wide):
    """Generators in every combination of the first four draws, followed by
    one generator that is used for many solutions in a row."""
    for draws in itertools.product(WIDE if wide else DRAWS, repeat=4):
        yield draws, pv.RandomNumberGenerator(state=before(draws))
    rng = pv.RandomNumberGenerator(seed=1)
    for num in range(STREAM * (10 if wide else 1)):
        yield num, rng


def sols(ctx, shard):
    import pyvrp as pv

    for feats in FEATS:
        if "group" in feats and shard["nc"] < 2:
            continue
        sp = F.make(feats, nc=shard["nc"], ns=shard["ns"],
                    nv=len(shard["fleet"]))
        for v, num in zip(sp["vtypes"], shard["fleet"]):
            v["num"] = num
        data = M.build(sp)
        single = sum(shard["fleet"]) == 1
        wanted = selections(sp)
        checked = {}
        seen, orders, types, full = set(), set(), set(), set()
        for draws, rng in sources(pv, shard["wide"]):
            ctx.states += 1
            ctx.transitions += 1
            state = tuple(rng.state())
            sol = pv.Solution.make_random(data, rng)
            lists = F.as_lists(sol)
            key = tuple((k, tuple(a)) for k, a in lists)

            def case():
                return dict(spec=sp, draws=draws, state=state)

            if key not in checked:
                ctx.traces += 1
                checked[key] = True
                if not M.legal_solution(sp, lists):
                    ctx.fail(case(), f"illegal random solution {lists}")
                if any(M.missing(sp, lists)):
                    ctx.fail(case(), f"incomplete random solution {lists}")
                ctx.equal(sol.is_complete(), True, case, "is_complete()")
                # Reproducible, whatever else was done in between.
                twin = pv.RandomNumberGenerator(state=state)
                again = pv.Solution.make_random(data, twin)
                ctx.equal(F.as_lists(again), lists, case, "second time")
                ctx.equal(tuple(twin.state()), tuple(rng.state()), case,
                          "final state")
            acts = [a for _, route in lists for a in route]
            seen.add(frozenset(a for a in acts if a[0] in "CL"))
            types.update(k for k, _ in lists)
            if single:
                orders.add(tuple(a for a in acts if a[0] == "C"))
                full.add(tuple(acts))

        def inst():
            return dict(spec=sp)

        seen = {frozenset(a for a in s if a[0] in "CL") for s in seen}
        if seen != wanted:
            ctx.fail(inst(), f"selections never made: {wanted - seen}, "
                             f"inadmissible: {seen - wanted}")
        ctx.equal(types - set(range(len(shard["fleet"]))), set(), inst,
                  "types")
        if any(wanted) and types != set(range(len(shard["fleet"]))):
            ctx.fail(inst(), f"only vehicle types {types} are ever used")
        if single:
            want = {
                perm
                for sel in wanted
                for perm in itertools.permutations(
                    sorted(a for a in sel if a[0] == "C")
                )
            }
            if orders != want:
                ctx.fail(inst(), f"orders never made: {want - orders}")
            # Orders of pickups and deliveries among them, where few.
            want = set()
            for sel in wanted:
                more = [f"U{a[1:]}" for a in sel if a[0] == "L"]
                if len(sel) + len(more) > 5:
                    want = None
                    break
                want |= {
                    perm
                    for perm in itertools.permutations([*sel, *more])
                    if M.legal_route(sp, 0, perm)
                }
            if want is not None and len(want) <= 100:
                ctx.count("all_orders")
                if full != want:
                    ctx.fail(inst(), f"orders never made: {want - full}")
        ctx.count("instances")
    ctx.sample(dict(spec=sp, last=lists))


def selections(sp):
    """All admissible sets of client visits and pickups."""
    axes = []
    for g, group in enumerate(sp["groups"]):
        members = [f"C{i}" for i, c in enumerate(sp["clients"])
                   if c["g"] == g]
        axes.append([(m,) for m in members]
                    + ([] if group["req"] else [()]))
    for i, c in enumerate(sp["clients"]):
        if c["g"] is None:
            axes.append([(f"C{i}",)] + ([] if c["req"] else [()]))
    for i, s in enumerate(sp["ships"]):
        axes.append([(f"L{i}",)] + ([] if s["req"] else [()]))
    return {
        frozenset(itertools.chain(*pick)) for pick in itertools.product(*axes)
    }
