"""C09: running, dwell and preparation times add up from the blocks travelled."""
import itertools

from mc import ref_data as ref, sets, shipped, world
from mc.prepared import df

PROPERTY = "C09"
BOUND = {
    "quick": "all routes of the networks 'single', 'katowice', 'braid' and of up to 5 blocks of 'line', each with every "
             "placement of turnaround times on its first three stations and on the blocks between, both speed classes "
             "on 'single', rounded and not; all shipped timetables",
    "thorough": "as quick with all routes of 'line' and both speed classes everywhere",
}
ASSUMPTIONS = ["no route visits a block or a station twice",
               "at an exact half both neighbouring integers count as rounding"]


def instances(tier):
    yield from sets.shipped_instances()
    big = tier == "thorough"
    for net, length in (("single", 8), ("katowice", 8), ("braid", 8), ("line", 8 if big else 5)):
        n = len(world.net(net).routes(max_blocks=length, min_blocks=1))
        chunk = 40
        for speed in ("R", "IC") if big or net == "single" else ("R",):
            for marks in itertools.product((0, 1), repeat=3):
                for start in range(0, n, chunk):
                    yield ("routes", net, length, speed, marks, start, start + chunk)


def judge(ctx, routes, leave, turn, station_of, td, stations):
    d = df()
    for r in (0, 1):
        with ctx.code("running times"):
            tp = d.get_taus_pass(td, r=r)
        with ctx.code("stays"):
            ts, extra = d.get_taus_stop(td, stations, r=r)
        with ctx.code("preparation times"):
            alone = dict(d.get_taus_prep(td, stations, r=r))
        tprep = {**alone, **extra}
        want_p, want_s, want_r = {}, {}, {}
        for j, route in routes.items():
            ctx.state()
            ctx.trace()
            for (s, s2), t in ref.running_times(route, leave[j], station_of).items():
                want_p[f"{j}_{s}_{s2}"] = t
            stay, prep = ref.stays(route, leave[j], turn[j], station_of)
            want_s.update({f"{j}_{s}": t for s, t in stay.items()})
            want_r.update({f"{j}_{s}": t for s, t in prep.items()})
        for what, got, want, rounded in (("running time", tp, want_p, r), ("stay", ts, want_s, r),
                                         ("preparation time", tprep, want_r, r),
                                         ("preparation time by itself", alone, want_r, r)):
            if set(got) != set(want):
                ctx.fail(f"{what}: given for {sorted(set(got) - set(want))[:5]} in excess, "
                         f"missing for {sorted(set(want) - set(got))[:5]}")
            for k in want:
                ctx.step()
                v = float(got[k])
                ctx.outcome((what, round(want[k], 3)))
                # a turnaround is a given number, which the stays hand on as it was given
                if tprep is got and k in extra and ref.close(v, want[k]):
                    continue
                if not (ref.is_rounding(v, want[k]) if rounded else ref.close(v, want[k])):
                    ctx.fail(f"{what} of {k} (rounded: {bool(rounded)}): {v!r}, exact value {want[k]!r}")


def examine(inst, ctx):
    if inst[0] == "shipped":
        c = shipped.case(ctx.repo, inst[1])
        judge(ctx, c.routes, {j: c.leave_times(j) for j in c.routes}, {j: c.turnarounds(j) for j in c.routes},
              c.station_of, shipped.prepared(ctx.repo, inst[1]), c.stations)
        return
    _, name, length, speed, marks, a, b = inst
    net = world.net(name)
    trains, turn, leave, routes = [], {}, {}, {}
    for i, route in list(enumerate(net.routes(max_blocks=length, min_blocks=1)))[a:b]:
        if not net.itinerary(route):
            continue
        j = 100 + i
        cells, n = {}, 0
        turn[j] = [0] * len(route)
        for k, blk in enumerate(route):
            if blk in net.station_of:
                if marks[min(n, 2)]:
                    turn[j][k] = (5.6, 7.3, 9.6)[min(n, 2)]
                    cells[k] = {"Turnaround_time_minutes": turn[j][k]}
                n += 1
        routes[j] = route
        leave[j] = [net.time(x, y, speed) for x, y in zip(route, route[1:])] + [0.0]
        trains.append(world.train(j, route, speed=speed, cells=cells))
    # the column of turnaround times has to exist as numbers
    trains.append(world.train(9999, net.routes()[0], cells={0: {"Turnaround_time_minutes": 1}}))
    with ctx.code("preparing"):
        td = world.load(trains, net, df())
    td = {j: e for j, e in td.items() if j != 9999}
    if any(marks):
        ctx.sample({"network": name, "turnaround on stations": marks, "trains": len(routes)})
    judge(ctx, routes, leave, turn, net.station_of, td, net.stations)
