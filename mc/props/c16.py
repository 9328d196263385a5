"""C16: every sequence of model-building calls against a reference builder."""

import itertools

ID = "C16"
RULE = (
    "every sequence of up to 3 (thorough: 4) model-building calls after a "
    "common prefix, over an alphabet of about 45 calls (locations, depots, "
    "clients with and without groups, groups, shipments, profiles, vehicle "
    "types, base and profile edges, repeated and self edges; referring to "
    "every existing object, including equal but distinct ones), and every "
    "sequence of up to 5 (thorough: 6) edge and profile calls; after every "
    "sequence the real data is compared field by field to a reference "
    "builder, earlier data must be unchanged, and the round trip through "
    "Model.from_data, also when continued with another call, must agree"
)
ASSUMPTIONS = ["at most 5 locations"]
TECHNIQUE = (
    "stateless model checking of the real model builder: all call sequences "
    "up to a depth against an executable reference builder"
)
BIG = 1 << 44


class Ref:
    """Reference builder: plain records."""

    def __init__(self):
        self.locs, self.depots, self.clients, self.groups = [], [], [], []
        self.ships, self.vts, self.edges, self.profs = [], [], [], []

    def copy(self):
        new = Ref()
        for key, val in vars(self).items():
            setattr(new, key, list(val))
        new.groups = [(list(c), r, n) for c, r, n in self.groups]
        new.profs = [(n, list(e)) for n, e in self.profs]
        return new

    def matrices(self, missing):
        num = len(self.locs)
        fill = min(missing, BIG)
        out = []
        for edges in [e for _, e in self.profs] or [[]]:
            known = {}
            for frm, to, dist, dur in self.edges:
                known[frm, to] = (dist, dur)
            for frm, to, dist, dur in edges:
                known[frm, to] = (dist, dur)
            out.append(
                [
                    [
                        known.get((i, j), (0, 0) if i == j else (fill, fill))
                        for j in range(num)
                    ]
                    for i in range(num)
                ]
            )
        return out

    def valid(self):
        return all(clients for clients, _, _ in self.groups)


def prefix():
    return [("loc", 0), ("loc", 0), ("depot", 0), ("loc", 1), ("vt", 0, 0, None, ())]


def alphabet(ref, deep):
    """All next calls (JSON-able), given the reference state."""
    locs = range(len(ref.locs))
    few = list(locs)[-2:]
    depots = range(len(ref.depots))
    profs = [None, *range(len(ref.profs))]
    if deep:
        yield ("profile",)
        yield ("loc", 0)
    else:
        yield ("loc", 0)
        yield ("loc", 2)
        for where in few:
            yield ("depot", where)
        yield ("group", True)
        yield ("group", False)
        for where in few:
            for group in [None, *range(len(ref.groups))]:
                yield ("client", where, group)
        yield ("ship", few[0], few[1])
        yield ("ship", 0, few[1])
        yield ("ship", few[1], few[1])
        yield ("profile",)
        for start, end in itertools.product(depots, repeat=2):
            for prof in profs:
                yield ("vt", start, end, prof, ())
        last = len(ref.depots) - 1
        for reload in {(0,), (last,), (last, 0)}:
            yield ("vt", None, last, profs[-1], reload)
    for frm, to in ((0, 1), (1, 0), (1, 2), (few[1], 0)):
        for prof in profs:
            yield ("edge", frm, to, prof)
    yield ("edge", 1, 1, profs[-1])


def shards(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    ref = Ref()
    for op in prefix():
        apply_ref(ref, op, 0)
    for idx, _ in enumerate(alphabet(ref, False)):
        out.append(dict(first=idx, depth=depth, deep=False))
    for idx, _ in enumerate(alphabet(ref, True)):
        out.append(dict(first=idx, depth=depth + 2, deep=True))
    out.append(dict(errors=True))
    return out


def client_fields(k, loc, group):
    return dict(
        location=loc, delivery=[k + 1], pickup=[2 * k + 3],
        service_duration=k + 4, tw_early=k + 5, tw_late=k + 90,
        release_time=k + 7, prize=k + 8, required=group is None and k % 2 == 0,
        group=group, name=f"client{k}",
    )


def ship_fields(k, pick, dele):
    return dict(
        pickup_location=pick, delivery_location=dele, pickup_tw_early=k + 1,
        pickup_tw_late=k + 50, pickup_service_duration=k + 3,
        delivery_tw_early=k + 4, delivery_tw_late=k + 60,
        delivery_service_duration=k + 6, amount=[k + 7], prize=k + 8,
        required=k % 2 == 1, name=f"ship{k}",
    )


def vt_fields(k, start, end, prof, reload):
    return dict(
        num_available=k + 1, capacity=[k + 20], start_depot=start or 0,
        end_depot=end, fixed_cost=k + 2, tw_early=k + 3, tw_late=k + 100,
        shift_duration=k + 70, max_distance=k + 80, unit_distance_cost=k + 6,
        unit_duration_cost=k + 7, profile=prof or 0, start_late=k + 50,
        initial_load=[k + 10], reload_depots=list(reload), max_reloads=k + 1,
        max_overtime=k + 11, unit_overtime_cost=k + 12, name=f"vt{k}",
    )


def depot_fields(k, loc):
    return dict(location=loc, tw_early=k, tw_late=k + 200,
                service_duration=k + 3, name=f"depot{k // 2}")


def apply_ref(ref, op, stamp):
    kind = op[0]
    if kind == "loc":
        ref.locs.append((op[1], op[1] + 1, "place"))
    elif kind == "depot":
        ref.depots.append(depot_fields(len(ref.depots), op[1]))
    elif kind == "group":
        ref.groups.append(([], op[1], "group"))
    elif kind == "client":
        k = len(ref.clients)
        ref.clients.append(client_fields(k, op[1], op[2]))
        if op[2] is not None:
            ref.groups[op[2]][0].append(k)
    elif kind == "ship":
        ref.ships.append(ship_fields(len(ref.ships), op[1], op[2]))
    elif kind == "profile":
        ref.profs.append(("profile", []))
    elif kind == "vt":
        ref.vts.append(vt_fields(len(ref.vts), *op[1:]))
    elif kind == "edge":
        _, frm, to, prof = op
        edge = (frm, to, 10 + stamp, 100 + stamp)
        if frm == to:
            edge = (frm, to, 0, 0)
        (ref.edges if prof is None else ref.profs[prof][1]).append(edge)


def scalar(vals, k):
    """Single loads are given as a list or as a plain integer."""
    return vals[0] if k % 2 else vals


def apply_real(m, op, stamp, ref):
    """Applies op; ref is the reference state before it."""
    kind = op[0]
    if kind == "loc":
        return m.add_location(op[1], op[1] + 1, name="place")
    if kind == "depot":
        kw = depot_fields(len(ref.depots), op[1])
        return m.add_depot(m.locations[kw.pop("location")], **kw)
    if kind == "group":
        return m.add_client_group(op[1], name="group")
    if kind == "client":
        k = len(ref.clients)
        kw = client_fields(k, op[1], op[2])
        loc, group = kw.pop("location"), kw.pop("group")
        kw["delivery"] = scalar(kw["delivery"], k)
        kw["pickup"] = scalar(kw["pickup"], k)
        if group is not None:
            kw["group"] = m.groups[group]
        return m.add_client(m.locations[loc], **kw)
    if kind == "ship":
        k = len(ref.ships)
        kw = ship_fields(k, op[1], op[2])
        pick, dele = kw.pop("pickup_location"), kw.pop("delivery_location")
        kw["amount"] = scalar(kw["amount"], k)
        return m.add_shipment(m.locations[pick], m.locations[dele], **kw)
    if kind == "profile":
        return m.add_profile(name="profile")
    if kind == "vt":
        k = len(ref.vts)
        kw = vt_fields(k, *op[1:])
        for key in ("start_depot", "end_depot"):
            kw[key] = m.depots[kw[key]]
        if op[1] is None:
            del kw["start_depot"]
        prof = kw.pop("profile")
        if op[3] is not None:
            kw["profile"] = m.profiles[prof]
        kw["reload_depots"] = [m.depots[d] for d in kw["reload_depots"]]
        kw["capacity"] = scalar(kw["capacity"], k)
        kw["initial_load"] = scalar(kw["initial_load"], k)
        return m.add_vehicle_type(**kw)
    _, frm, to, prof = op
    vals = (10 + stamp, 100 + stamp) if frm != to else (0, 0)
    return m.add_edge(
        m.locations[frm], m.locations[to], *vals,
        profile=None if prof is None else m.profiles[prof],
    )


def fields(obj, names):
    out = {}
    for name in names:
        val = getattr(obj, name)
        out[name] = list(val) if isinstance(val, (list, tuple)) or hasattr(
            val, "tolist"
        ) else val
    return out


def compare(data, ref, missing=BIG):
    """First difference between real data and the reference, or None."""
    locs = [(x.x, x.y, x.name) for x in data.locations()]
    if locs != ref.locs:
        return f"locations {locs}, want {ref.locs}"
    pairs = (
        ("clients", data.clients(), ref.clients),
        ("depots", data.depots(), ref.depots),
        ("vehicle types", data.vehicle_types(), ref.vts),
    )
    for what, real, want in pairs:
        got = [fields(x, want[0]) for x in real] if want else list(real)
        if got != want:
            return f"{what} {got}, want {want}"
    got = [
        dict(
            pickup_location=s.pickup.location,
            delivery_location=s.delivery.location,
            pickup_tw_early=s.pickup.tw_early, pickup_tw_late=s.pickup.tw_late,
            pickup_service_duration=s.pickup.service_duration,
            delivery_tw_early=s.delivery.tw_early,
            delivery_tw_late=s.delivery.tw_late,
            delivery_service_duration=s.delivery.service_duration,
            amount=list(s.amount), prize=s.prize, required=s.required,
            name=s.name,
        )
        for s in data.shipments()
    ]
    if got != ref.ships:
        return f"shipments {got}, want {ref.ships}"
    got = [(list(g.clients), g.required, g.name) for g in data.groups()]
    if got != ref.groups:
        return f"groups {got}, want {ref.groups}"
    mats = ref.matrices(missing)
    if data.num_profiles != len(mats):
        return f"{data.num_profiles} profiles, want {len(mats)}"
    for k, mat in enumerate(mats):
        dist = data.distance_matrix(k).tolist()
        dur = data.duration_matrix(k).tolist()
        if dist != [[x[0] for x in row] for row in mat]:
            return f"distances of profile {k}: {dist}, want {mat}"
        if dur != [[x[1] for x in row] for row in mat]:
            return f"durations of profile {k}: {dur}, want {mat}"
    return None


def build(pv, ops):
    m, ref = pv.Model(), Ref()
    for stamp, op in enumerate(ops):
        apply_real(m, op, stamp, ref)
        apply_ref(ref, op, stamp)
    return m, ref


def run(shard, ctx):
    import pyvrp as pv

    if "errors" in shard:
        return check_errors(ctx, pv)

    deep = shard["deep"]
    base = prefix()

    def explore(ops, ref):
        """ops has been applied; ref is its reference state."""
        ctx.states += 1
        ctx.traces += 1
        ctx.note(lambda: repr(ops))
        m, _ = build(pv, ops[:-1])
        before = Ref()
        for stamp, op in enumerate(ops[:-1]):
            apply_ref(before, op, stamp)
        early = m.data() if before.valid() else None
        apply_real(m, ops[-1], len(ops) - 1, before)
        ctx.transitions += 1
        if ref.valid():
            missing = BIG if len(ops) % 2 else 1000
            data = m.data() if missing == BIG else m.data(missing)
            bad = compare(data, ref, missing)
            if bad:
                ctx.fail(ops, bad)
            if m.data(missing) != data:
                ctx.fail(ops, "repeated data() differs")
            back = pv.Model.from_data(data)
            if back.data() != data:
                ctx.fail(ops, "from_data does not round trip")
        else:
            try:
                m.data()
                ctx.fail(ops, "empty group accepted")
            except ValueError:
                pass
        if early is not None:
            bad = compare(early, before)
            if bad:
                ctx.fail(ops, f"earlier data changed: {bad}")
            # The same call on a model restored from data.
            if before.profs or ops[-1][0] not in ("edge", "profile", "loc"):
                back = pv.Model.from_data(early)
                apply_real(back, ops[-1], len(ops) - 1, before)
                want = ref
                if not before.profs:
                    want = ref.copy()
                    want.profs, want.edges = [("", want.edges)], []
                elif ops[-1][0] in ("loc", "profile"):
                    want = None  # restored edges are all explicit
                elif ops[-1][0] == "edge" and ops[-1][3] is None:
                    want = None  # base edges yield to restored ones
                if want is not None and want.valid():
                    bad = compare(back.data(), want)
                    if bad:
                        ctx.fail(ops, f"restored, then continued: {bad}")
                bad = compare(early, before)
                if bad:
                    ctx.fail(ops, f"continuing changed the source: {bad}")
        if len(ops) - len(base) < shard["depth"]:
            for op in list(alphabet(ref, deep)):
                new = ref.copy()
                apply_ref(new, op, len(ops))
                explore([*ops, op], new)

    ref = Ref()
    for stamp, op in enumerate(base):
        apply_ref(ref, op, stamp)
    first = list(alphabet(ref, deep))[shard["first"]]
    apply_ref(ref, first, len(base))
    explore([*base, first], ref)
    ctx.sample(dict(first=first))


def check_errors(ctx, pv):
    """References to foreign objects are rejected and change nothing."""
    ops = [*prefix(), ("group", True), ("client", 1, 0), ("profile",),
           ("edge", 0, 1, 0)]
    other, _ = build(pv, ops)  # equal objects, other identities
    cases = [
        lambda m: m.add_depot(other.locations[0]),
        lambda m: m.add_client(other.locations[0]),
        lambda m: m.add_client(m.locations[0], required=False,
                               group=other.groups[0]),
        lambda m: m.add_client(m.locations[0], group=m.groups[0]),
        lambda m: m.add_client(m.locations[0], delivery=[-1], required=False,
                               group=m.groups[0]),
        lambda m: m.add_shipment(other.locations[0], m.locations[0]),
        lambda m: m.add_shipment(m.locations[0], other.locations[0]),
        lambda m: m.add_vehicle_type(start_depot=other.depots[0]),
        lambda m: m.add_vehicle_type(end_depot=other.depots[0]),
        lambda m: m.add_vehicle_type(profile=other.profiles[0]),
        lambda m: m.add_vehicle_type(reload_depots=[other.depots[0]]),
        lambda m: m.add_vehicle_type(
            reload_depots=[m.depots[0], other.depots[0]]),
        lambda m: m.add_edge(m.locations[0], m.locations[1], -1),
        lambda m: m.add_edge(m.locations[0], m.locations[1], 0, -1),
        lambda m: m.add_edge(m.locations[0], m.locations[0], 1),
        lambda m: m.add_edge(m.locations[0], m.locations[0], 0, 1),
        lambda m: m.add_edge(m.locations[0], m.locations[1], -1,
                             profile=m.profiles[0]),
    ]
    for num, bad in enumerate(cases):
        m, ref = build(pv, ops)
        ctx.states += 1
        ctx.traces += 1
        try:
            bad(m)
            ctx.fail(num, "erroneous call accepted")
        except ValueError:
            pass
        diff = compare(m.data(), ref)
        ctx.check(diff is None, num, f"failed call changed the model: {diff}")
    # Defaults.
    m = pv.Model()
    loc = m.add_location(1, 2)
    m.add_depot(loc)
    m.add_client(loc)
    m.add_shipment(loc, loc)
    m.add_vehicle_type()
    data = m.data()
    late = 2**63 - 1
    c, d, v, s = (data.client(0), data.depot(0), data.vehicle_type(0),
                  data.shipment(0))
    ctx.equal(
        (c.location, list(c.delivery), list(c.pickup), c.service_duration,
         c.tw_early, c.tw_late, c.release_time, c.prize, c.required, c.group,
         c.name),
        (0, [], [], 0, 0, late, 0, 0, True, None, ""), "client", "defaults")
    ctx.equal((d.location, d.tw_early, d.tw_late, d.service_duration, d.name),
              (0, 0, late, 0, ""), "depot", "defaults")
    ctx.equal(
        (v.num_available, list(v.capacity), v.start_depot, v.end_depot,
         v.fixed_cost, v.tw_early, v.tw_late, v.shift_duration,
         v.max_distance, v.unit_distance_cost, v.unit_duration_cost,
         v.profile, v.start_late, list(v.initial_load), list(v.reload_depots),
         v.max_reloads, v.max_overtime, v.unit_overtime_cost, v.name),
        (1, [], 0, 0, 0, 0, late, late, late, 1, 0, 0, late, [], [], 2**64 - 1,
         0, 0, ""), "vehicle type", "defaults")
    ctx.equal(
        (s.pickup.tw_early, s.pickup.tw_late, s.pickup.service_duration,
         s.delivery.tw_early, s.delivery.tw_late, s.delivery.service_duration,
         list(s.amount), s.prize, s.required, s.name),
        (0, late, 0, 0, late, 0, [], 0, True, ""), "shipment", "defaults")
