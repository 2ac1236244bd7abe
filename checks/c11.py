"""C11: scheduled and initial times are minutes relative to the reference time."""
import itertools

from mc import ref_data as ref, sets, shipped, world
from mc.prepared import df

PROPERTY = "C11"
CLOCK = ("00:00", "15:30", "16:00", "23:59")
ROUTES = (("A1", "s1", "s2", "B1"), ("s1", "s2", "B1", "t1"), ("A2", "s1"), ("B2", "t1", "C1"))
DEP = (None, "0:05", "15:59", "16:00", "17:05")
APPROX = (None, "16:07", "08:30")
BOUND = {
    "quick": "4 routes with stations in every position, every pattern of departure cells (none, 0:05, 15:59, 16:00, "
             "17:05) and approximate entry cells (none, 16:07, 08:30) on the stations, departures and arrivals on the "
             "blocks between or not, 4 reference times; all shipped timetables at the reference times of the studies",
    "thorough": "as quick",
}
ASSUMPTIONS = ["times of one timetable lie in one day"]


def instances(tier):
    for inst in sets.shipped_instances():
        for t in CLOCK:
            yield inst + (t,)
    for r in range(len(ROUTES)):
        for noise in (0, 1):
            for t in CLOCK:
                for d in DEP:
                    yield ("cells", r, noise, t, d)


def judge(ctx, t, routes, cells, station_of, td):
    import data_formatting.data_formatting.utils as utils

    judge_by(ctx, df(), t, routes, cells, station_of, td)
    if hasattr(utils, "get_schedule") and hasattr(utils, "get_initial_conditions"):
        # the twins of the exported functions, as long as they exist
        judge_by(ctx, utils, t, routes, cells, station_of, td)


def judge_by(ctx, module, t, routes, cells, station_of, td):
    with ctx.code("schedule"):
        got = module.get_schedule(td, t)
    with ctx.code("initial conditions"):
        first = module.get_initial_conditions(td, t)
    ctx.trace(2)
    want, want_first = {}, {}
    for j, route in routes.items():
        ctx.state()
        seen = False
        for b, c in zip(route, cells[j]):
            if b not in station_of:
                continue
            key = f"{j}_{station_of[b]}"
            if c.get("Dep"):
                want[key] = ref.minutes(t, c["Dep"])
            if not seen:
                v = c.get("Dep") or c.get("Approx_enter")
                want_first[key] = ref.minutes(t, v) if v else 0
                seen = True
    for what, g, w in (("scheduled departure", got, want), ("initial condition", first, want_first)):
        if set(g) != set(w):
            ctx.fail(f"{what}: in excess {sorted(set(g) - set(w))[:5]}, missing {sorted(set(w) - set(g))[:5]}")
        for k in w:
            ctx.step()
            ctx.outcome((what, w[k]))
            if not ref.close(float(g[k]), w[k]):
                ctx.fail(f"{what} of {k} relative to {t}: {g[k]!r} instead of {w[k]!r}")


def examine(inst, ctx):
    if inst[0] == "shipped":
        c = shipped.case(ctx.repo, inst[1])
        judge(ctx, inst[2], c.routes, c.cells, c.station_of, shipped.prepared(ctx.repo, inst[1]))
        return
    _, r, noise, t, d = inst
    net = world.net("single")
    route = ROUTES[r]
    stops = [i for i, b in enumerate(route) if b in net.station_of]
    options = [[d]] + [APPROX] + [DEP, APPROX] * (len(stops) - 1)
    trains, cells = [], {}
    for n, values in enumerate(itertools.product(*options)):
        row = {i: {} for i in range(len(route))}
        for i, dep, approx in zip(stops, values[::2], values[1::2]):
            if dep:
                row[i]["Dep"] = dep
            if approx:
                row[i]["Approx_enter"] = approx
        if noise:
            for i in row:
                row[i]["Arr"] = "12:34"
                if i not in stops:
                    row[i]["Dep"] = "13:45"
                    row[i]["Approx_enter"] = "13:40"
        trains.append(world.train(n + 1, route, cells=row))
        cells[n + 1] = [row[i] for i in range(len(route))]
    with ctx.code("preparing"):
        td = world.load(trains, net, df())
    judge(ctx, t, {j: route for j in cells}, cells, net.station_of, td)
    ctx.sample({"route": route, "reference time": t, "departure from the first station": d, "trains": len(trains)})
