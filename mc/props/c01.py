"""C01: route statistics equal the step-by-step execution of the route."""

from mc import families as F
from mc import model as M
from mc import routespace as R

ID = "C01"
RULE = (
    "every legal route (visits, order, reloads) of every instance in (a) the "
    "lattice of all interactions of up to 3 (thorough: 4) of 21 instance "
    "features, (b) the product lattice of client/depot/vehicle time windows, "
    "service, release, shift and overtime values, (c) the product lattice of "
    "demands, shipment amounts, initial loads and capacities; each statistic "
    "of the real Route is compared to brute-force execution over all starts; "
    "(d) 14 wide instances (70 clients, 6 shipments, 4 depots, 3 types, "
    "profiles and load dimensions, up to 8 trips) with routes of every "
    "length, (e) instances with all values times 10^6, 2^32 + 1 and 10^11"
)
ASSUMPTIONS = [
    "all routes: at most 3 clients / 2 shipments and 1 (thorough: 2) reloads; "
    "a structured choice of longer ones",
    "integer start times only (all data is integral)",
]

shards = R.shards


def run(shard, ctx):
    import pyvrp as pv

    for sp, data, vt, routes, by in R.cases(shard):
        ctx.states += 1
        v = sp["vtypes"][vt]
        for acts in routes:
            ctx.transitions += 1
            ctx.traces += 1
            want = R.expected(sp, vt, acts, by)
            got = F.real_route(pv, data, vt, acts)

            pairs = dict(
                duration=got.duration(),
                time_warp=got.time_warp(),
                overtime=got.overtime(),
                travel=got.travel_duration(),
                service=got.service_duration(),
                wait=got.wait_duration(),
                distance=got.distance(),
                excess_distance=got.excess_distance(),
                delivery=got.delivery(),
                pickup=got.pickup(),
                excess_load=got.excess_load(),
                distance_cost=got.distance_cost(),
                duration_cost=got.duration_cost(),
                fixed=got.fixed_vehicle_cost(),
                prizes=got.prizes(),
                release=got.release_time(),
            )
            for key, val in pairs.items():
                if val != want[key]:
                    ctx.fail(
                        dict(spec=sp, vt=vt, by=by, route=acts),
                        f"{key}: got {val!r}, want {want[key]!r}",
                    )

            flags = dict(
                feas=(got.is_feasible(), M.route_feasible(want)),
                load=(got.has_excess_load(), any(want["excess_load"])),
                dist=(got.has_excess_distance(), want["excess_distance"] > 0),
                tw=(got.has_time_warp(), want["time_warp"] > 0),
                clients=(
                    got.num_clients(), sum(a[0] == "C" for a in acts),
                ),
                ships=(got.num_shipments(), sum(a[0] == "L" for a in acts)),
                trips=(got.num_trips(), sum(a[0] == "D" for a in acts) + 1),
                depots=(
                    got.num_depots(), sum(a[0] == "D" for a in acts) + 2,
                ),
                length=(len(got), len(acts) + 2),
                vt=(got.vehicle_type(), vt),
                start=(got.start_depot(), v["start"]),
                end=(got.end_depot(), v["end"]),
            )
            for key, (val, exp) in flags.items():
                if val != exp:
                    ctx.fail(
                        dict(spec=sp, vt=vt, by=by, route=acts),
                        f"{key}: got {val!r}, want {exp!r}",
                    )
            if not M.route_feasible(want):
                ctx.count("infeasible_routes")
        ctx.sample(dict(spec=sp, last_route=acts))
