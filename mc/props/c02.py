"""C02: the timetable (start time, slack, schedule) of a route is right."""

from mc import families as F
from mc import model as M
from mc import routespace as R

ID = "C02"
RULE = (
    "same bounded space of routes as C01; start time, end time, slack and "
    "every schedule entry of the real Route are compared to executing the "
    "route from the best of all integer start times; slack is compared to the "
    "number of later starts found equally good by execution; for feasible "
    "routes the schedule is also checked against every window directly"
)
ASSUMPTIONS = [
    "at most 3 clients / 2 shipments and 1 (thorough: 2) reloads per route",
]

shards = R.shards


def run(shard, ctx):
    import pyvrp as pv

    for sp, data, vt, routes, by in R.cases(shard):
        ctx.states += 1
        for acts in routes:
            ctx.transitions += 1
            ctx.traces += 1

            def case():
                return dict(spec=sp, vt=vt, by=by, route=acts)

            line = M.timeline(sp, vt, acts)
            start, slack, dur, warp = M.best_start(sp, vt, acts, line)
            got = F.real_route(pv, data, vt, acts)
            ctx.equal(got.start_time(), start * by, case, "start time")
            if slack is None:
                ctx.check(
                    got.slack() > 10**6, case, f"slack {got.slack()} bounded"
                )
            else:
                ctx.equal(got.slack(), slack * by, case, "slack")

            v = sp["vtypes"][vt]
            full = warp + max(0, dur - warp - min(v["shift"] + v["ot"],
                                                 M.INT_MAX))
            ctx.equal(got.end_time(), (start + dur - full) * by, case, "end time")

            entries = [
                (
                    str(a), a.trip, a.start_time, a.end_time,
                    a.wait_duration, a.time_warp,
                )
                for a in got.schedule()
            ]
            want = [
                (a, trip, *(x * by for x in times))
                for a, trip, *times in M.schedule(sp, vt, acts, start)
            ]
            ctx.equal(entries, want, case, "schedule")
            durs = [a.duration for a in got.schedule()]
            ctx.equal(
                durs, [x[3] - x[2] for x in want], case, "entry durations"
            )
            ctx.equal([str(a) for a in got], [x[0] for x in want], case,
                      "activities")
            ctx.equal(
                [str(got[i]) for i in range(len(got))],
                [x[0] for x in want], case, "indexed activities",
            )

            if full == 0:
                ctx.count("time_feasible_routes")
                ctx.equal(
                    entries[-1][3], got.end_time(), case, "schedule end"
                )
                ctx.equal(
                    sum(x[4] for x in entries), got.wait_duration(), case,
                    "total wait",
                )
                for x in entries:
                    _, early, late, _ = M.stop(sp, x[0])
                    ctx.check(
                        early * by <= x[2] <= late * by and x[5] == 0, case,
                        f"entry {x} outside window [{early}, {late}]",
                    )
        ctx.sample(dict(spec=sp, last_route=acts))
