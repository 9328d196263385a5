"""C22: supporting containers behave like their mathematical counterparts."""

import itertools
from collections import deque
from fractions import Fraction

ID = "C22"
RULE = (
    "bit sets of seven sizes: every set over the boundary positions of its "
    "blocks and every complement of one, every operation in each and every "
    "pair for binary operations, and every sequence of <= 4 (thorough: 5) "
    "operations on two sets, observed through all accessors and at all "
    "positions; ring buffers of capacity 1-4: every sequence of <= 9 "
    "(thorough: 11) operations; piecewise linear functions: every list of <= "
    "4 (thorough: 5) points over a grid and every small list of breakpoints "
    "and segments, accepted or not, evaluated at every integer in range, all "
    "compared to sets, queues and rational arithmetic"
)
ASSUMPTIONS = [
    "bit sets of different sizes are never combined",
    "ring buffers of positive capacity that do not hold None values",
    "functions whose values fit 64 bit integers",
]
SIZES = (0, 1, 63, 64, 65, 128, 129)
XS, YS = (-2, 0, 1, 3), (-4, -1, 0, 2, 6)


def shards(tier):
    quick = tier == "quick"
    out = []
    for size in SIZES:
        out.append(dict(kind="bits", size=size))
        for part in range(8):
            out.append(dict(kind="bitseq", size=size, part=part,
                            depth=4 if quick else 5))
    for maxlen in range(1, 5):
        for first in range(4):
            out.append(dict(kind="ring", maxlen=maxlen, first=first,
                            depth=9 if quick else 11))
    for first in range(len(XS) * len(YS)):
        out.append(dict(kind="points", first=first, most=4 if quick else 5))
    for first in range(9):
        out.append(dict(kind="segments", first=first, most=3))
    out.append(dict(kind="large"))
    return out


def run(shard, ctx):
    globals()[shard["kind"]](ctx, shard)


# -- bit sets -----------------------------------------------------------------


def length(size):
    return (size + 63) // 64 * 64


def positions(num):
    want = {0, 1, 31, 62, 63, 64, 65, 127, 128, 190, 191}
    return sorted(p for p in want if p < num)


def make(size, bits):
    from pyvrp._pyvrp import DynamicBitset

    out = DynamicBitset(size)
    for idx in bits:
        out[idx] = True
    return out


def observe(ctx, real, num, want, case):
    ctx.traces += 1
    got = [bool(real[idx]) for idx in range(num)]
    if {i for i, v in enumerate(got) if v} != want:
        ctx.fail(case(), f"holds {[i for i, v in enumerate(got) if v]}, "
                         f"not {sorted(want)}")
        return
    ctx.equal(len(real), num, case, "len()")
    ctx.equal(real.count(), len(want), case, "count()")
    ctx.equal(real.any(), bool(want), case, "any()")
    ctx.equal(real.none(), not want, case, "none()")
    ctx.equal(real.all(), len(want) == num, case, "all()")


def bits(ctx, shard):
    size = shard["size"]
    num = length(size)
    full = set(range(num))
    pos = positions(num)
    if len(pos) > 7:
        pos = [p for p in pos if p not in (31, 62, 65, 190)]
    sets = []
    for count in range(len(pos) + 1):
        for sub in itertools.combinations(pos, count):
            sets.append(set(sub))
            sets.append(full - set(sub))
    reals = [make(size, s) for s in sets]
    for mine, real in zip(sets, reals):
        ctx.states += 1

        def case():
            return dict(size=size, held=sorted(mine))

        observe(ctx, real, num, mine, case)
        ctx.equal(list(real), [i in mine for i in range(num)], case, "list()")
        for idx in (num, num + 1, num + 64, 2**40):
            for write in (False, True):
                ctx.transitions += 1
                try:
                    if write:
                        real[idx] = True
                    else:
                        real[idx]
                    ctx.fail(case(), f"no IndexError at {idx}")
                except IndexError:
                    pass
        other = ~real
        ctx.transitions += 1
        observe(ctx, other, num, full - mine, case)
        observe(ctx, real, num, mine, case)  # untouched
        for idx in pos:
            for value in (False, True):
                ctx.transitions += 1
                new = make(size, mine)
                new[idx] = value
                want = mine | {idx} if value else mine - {idx}
                observe(ctx, new, num, want, case)
                ctx.equal(new == real, want == mine, case, "equality")
        new = make(size, mine)
        new.set()
        observe(ctx, new, num, full, case)
        new.reset()
        observe(ctx, new, num, set(), case)
        ctx.transitions += 2

    ops = dict(
        union=lambda a, b: a | b, inter=lambda a, b: a & b,
        sym=lambda a, b: a ^ b,
    )
    for (mine, real), (theirs, other) in itertools.product(
        zip(sets, reals), repeat=2
    ):
        def case():
            return dict(size=size, one=sorted(mine), two=sorted(theirs))

        for name, op in ops.items():
            ctx.transitions += 1
            got = op(real, other)
            want = op(mine, theirs)
            ctx.equal(got.count(), len(want), case, name)
            for idx in pos:
                if bool(got[idx]) != (idx in want):
                    ctx.fail(case(), f"{name} wrong at {idx}")
            if bool(got == real) != (want == mine):
                ctx.fail(case(), f"{name}: equality wrong")
        ctx.equal(real == other, mine == theirs, case, "equality")
        ctx.equal(real != other, mine != theirs, case, "inequality")
    for mine, real in zip(sets, reals):  # operands are never changed
        observe(ctx, real, num, mine, lambda: dict(size=size, held=mine))


def bitseq(ctx, shard):
    size, depth = shard["size"], shard["depth"]
    num = length(size)
    full = frozenset(range(num))
    pos = [p for p in positions(num) if p in (0, 63, 64, 127, 128, 191)]
    ops = []
    for p in pos:
        ops += [("put", p), ("del", p)]
    ops += [("set",), ("reset",), ("or",), ("and",), ("xor",), ("inv",),
            ("swap",), ("self_or",), ("self_xor",)]
    for k, seq in enumerate(itertools.product(ops, repeat=depth)):
        if k % 8 != shard["part"]:
            continue
        ctx.states += 1
        a, b = make(size, ()), make(size, pos[:1])
        ma, mb = frozenset(), frozenset(pos[:1])
        for op in seq:
            ctx.transitions += 1
            if op[0] == "put":
                a[op[1]] = True
                ma = ma | {op[1]}
            elif op[0] == "del":
                a[op[1]] = False
                ma = ma - {op[1]}
            elif op[0] == "set":
                a.set()
                ma = full
            elif op[0] == "reset":
                a.reset()
                ma = frozenset()
            elif op[0] == "or":
                a, ma = a | b, ma | mb
            elif op[0] == "and":
                a, ma = a & b, ma & mb
            elif op[0] == "xor":
                a, ma = a ^ b, ma ^ mb
            elif op[0] == "inv":
                a, ma = ~a, full - ma
            elif op[0] == "swap":
                a, b, ma, mb = b, a, mb, ma
            elif op[0] == "self_or":
                a |= a
            elif op[0] == "self_xor":
                a ^= a
                ma = frozenset()

        def case():
            return dict(size=size, ops=seq)

        for real, model in ((a, ma), (b, mb)):
            ctx.traces += 1
            ctx.equal(real.count(), len(model), case, "count()")
            ctx.equal(real.any(), bool(model), case, "any()")
            ctx.equal(real.none(), not model, case, "none()")
            ctx.equal(real.all(), len(model) == num, case, "all()")
            for p in pos:
                ctx.equal(bool(real[p]), p in model, case, f"bit {p}")
        ctx.equal(a == b, ma == mb, case, "equality")
    ctx.sample(dict(size=size, ops=[str(o) for o in ops], depth=depth))


# -- ring buffers -------------------------------------------------------------


def ring(ctx, shard):
    from pyvrp.RingBuffer import RingBuffer

    maxlen, depth = shard["maxlen"], shard["depth"]
    for seq in itertools.product(range(4), repeat=depth - 1):
        seq = (shard["first"], *seq)
        ctx.states += 1
        real = RingBuffer(maxlen)
        model = deque([None] * maxlen, maxlen=maxlen)
        for k, op in enumerate(seq):
            ctx.transitions += 1
            if op == 0:
                real.append(k + 1)
                model.append(k + 1)  # drops the oldest at the front
            elif op == 1:
                real.append(0)
                model.append(0)
            elif op == 2:
                real.skip()
                model.rotate(-1)
            else:
                real.clear()
                model = deque([None] * maxlen, maxlen=maxlen)
            ok = (
                real.peek() == model[0]
                and len(real) == sum(v is not None for v in model)
                and real.maxlen == maxlen
            )
            if not ok:
                ctx.fail(
                    dict(maxlen=maxlen, ops=seq[: k + 1]),
                    f"peek {real.peek()} (want {model[0]}), len {len(real)}, "
                    f"model {list(model)}",
                )
                break
        # Content and order, observed by draining through peek and skip.
        drained = []
        for _ in range(maxlen):
            drained.append(real.peek())
            real.skip()
        ctx.traces += 1
        if drained != list(model):
            ctx.fail(dict(maxlen=maxlen, ops=seq),
                     f"contents {drained}, want {list(model)}")


# -- piecewise linear functions -------------------------------------------------


def build(points):
    """Reference: list of (from, intercept, slope), or None if invalid."""
    if len(points) < 2:
        return None
    if points[0][0] == points[1][0] or points[-1][0] == points[-2][0]:
        return None
    segs = []
    for (x0, y0), (x1, y1) in zip(points, points[1:]):
        if x1 < x0:
            return None
        if x1 == x0:
            continue
        slope = Fraction(y1 - y0, x1 - x0)
        if slope.denominator != 1:
            return None
        segs.append((x0, y0 - slope * x0, slope))
    return segs


def value(segs, x):
    pick = segs[0]
    for seg in segs[1:]:
        if x >= seg[0]:
            pick = seg
    return pick[1] + pick[2] * x


def compare(ctx, fn, segs, xs, case):
    ctx.traces += 1
    for x in xs:
        if fn(x) != value(segs, x):
            ctx.fail(case(), f"f({x}) = {fn(x)}, want {value(segs, x)}")
            return
    ctx.equal(list(fn.breakpoints), [s[0] for s in segs[1:]], case,
              "breakpoints")
    ctx.equal([tuple(s) for s in fn.segments], [s[1:] for s in segs], case,
              "segments")
    mono = all(s[2] >= 0 for s in segs)
    for one, two in zip(segs, segs[1:]):
        left = one[1] + one[2] * two[0]
        right = two[1] + two[2] * two[0]
        mono = mono and right >= left
    ctx.equal(fn.is_monotonically_increasing(), mono, case, "monotone")


def points(ctx, shard):
    from pyvrp import PiecewiseLinearFunction as Fn

    grid = list(itertools.product(XS, YS))
    first = grid[shard["first"]]
    if shard["first"] == 0:
        for pts in ([], *([g] for g in grid)):
            ctx.states += 1
            try:
                Fn(pts)
                ctx.fail(dict(points=pts), "accepted fewer than two points")
            except ValueError:
                pass
    for count in range(1, shard["most"]):
        for rest in itertools.product(grid, repeat=count):
            pts = [first, *rest]
            ctx.states += 1
            ctx.transitions += 1
            segs = build(pts)

            def case():
                return dict(points=pts)

            try:
                fn = Fn(pts)
            except ValueError:
                if segs is not None:
                    ctx.fail(case(), "valid points rejected")
                continue
            if segs is None:
                ctx.fail(case(), "invalid points accepted")
                continue
            ctx.count("accepted")
            compare(ctx, fn, segs, range(-4, 6), case)
            again = Fn([s[0] for s in segs[1:]],
                       [(int(s[1]), int(s[2])) for s in segs])
            ctx.equal(again == fn, True, case, "equal to its segments' twin")
    ctx.sample(dict(points=[first, *rest]))


def segments(ctx, shard):
    from pyvrp import PiecewiseLinearFunction as Fn

    coef = list(itertools.product((-2, 0, 3), (-1, 0, 2)))
    brks = (-1, 0, 2)
    seen = []
    for num in range(0, shard["most"] + 1):
        for rest in itertools.product(coef, repeat=max(num - 1, 0)):
            segs = [coef[shard["first"]], *rest] if num else []
            for nb in range(0, 3):
                for bs in itertools.product(brks, repeat=nb):
                    ctx.states += 1
                    ctx.transitions += 1
                    ok = num >= 1 and nb + 1 == num and all(
                        x < y for x, y in zip(bs, bs[1:])
                    )

                    def case():
                        return dict(breakpoints=bs, segments=segs)

                    try:
                        fn = Fn(list(bs), segs)
                    except ValueError:
                        ctx.check(not ok, case, "valid function rejected")
                        continue
                    if not ok:
                        ctx.fail(case(), "invalid function accepted")
                        continue
                    ref = [(x, *s) for x, s in zip((None, *bs), segs)]
                    compare(ctx, fn, ref, range(-4, 6), case)
                    seen.append((fn, bs, segs))
    for (f, b0, s0), (g, b1, s1) in itertools.product(seen[:300], repeat=2):
        ctx.transitions += 1
        if (f == g) != ((b0, s0) == (b1, s1)):
            ctx.fail(dict(one=[b0, s0], two=[b1, s1]), "equality wrong")


def large(ctx, shard):
    """Values far from zero, where narrower types or floats would fail."""
    from pyvrp import PiecewiseLinearFunction as Fn

    big = 2**31
    xs = (-big, 0, big, 2**40)
    slopes = (-3, 0, 1, 2**20 + 1)
    for s0, s1, s2 in itertools.product(slopes, repeat=3):
        for jump in (0, 5, 2**54 + 1):
            ctx.states += 1
            ctx.transitions += 1
            pts = [(xs[0], 7), (xs[1], 7 + s0 * big)]
            pts.append((xs[1], pts[-1][1] + jump))
            pts.append((xs[2], pts[-1][1] + s1 * big))
            pts.append((xs[3], pts[-1][1] + s2 * (xs[3] - xs[2])))
            fn = Fn(pts)
            near = [x + d for x in xs for d in (-1, 0, 1)]
            compare(ctx, fn, build(pts), near, lambda: dict(points=pts))
