"""C06: trains sharing a station track are grouped, per station and track."""
from mc import ref_data as ref, sets, shipped, world
from mc.prepared import df

PROPERTY = "C06"
BOUND = {
    "quick": "all ordered pairs of routes of the networks 'single', 'katowice' and 'braid' and of routes of up to 4 blocks of "
             "'line'; all ordered triples of the core routes of 'single' and 'katowice'; two trains on every "
             "track of every station of the shipped station lists; all shipped timetables",
    "thorough": "as quick with routes of up to 5 blocks of 'line' and all core routes of 'katowice'",
}
ASSUMPTIONS = ["no route visits a block or a station twice"]


def instances(tier):
    yield from sets.shipped_instances()
    for name in shipped.DATASETS:
        yield ("tracks", name)
    big = tier == "thorough"
    yield from sets.pair_instances([("single",), ("katowice",), ("braid",), ("line", 5 if big else 4, 2)])
    yield from sets.triple_instances([("single",)])
    yield from sets.triple_instances([("katowice",)], None if big else 16)


def judge(ctx, net, routes, td):
    with ctx.code("grouping by station track"):
        got = df().jtrack(td, net.stations)
    ctx.trace()
    ctx.state()
    want = {s: g for s, g in ref.track_groups(routes, net.station_of, net.stations).items() if g}
    seen = {}
    for s, groups in got.items():
        ctx.step(len(groups))
        flat = [j for g in groups for j in g]
        if len(flat) != len(set(flat)):
            ctx.fail(f"a train is listed twice at {s}: {groups}")
        if flat:
            seen[s] = {frozenset(g) for g in groups if g}
    ctx.outcome(tuple(sorted((k, tuple(sorted(map(len, v)))) for k, v in want.items())))
    if seen != want:
        ctx.fail(f"groups {seen} instead of {want} for the routes {routes}")


def examine(inst, ctx):
    if inst[0] == "shipped":
        judge(ctx, *sets.shipped_world(ctx, inst))
        return
    if inst[0] == "tracks":
        for s, blocks in shipped.stations(ctx.repo, inst[1]).items():
            net = world.Net("tracks", {s: list(blocks)}, [(b, "outside", ()) for b in blocks])
            trains = [world.train(10 + i, r) for i, r in enumerate(
                [(b, "outside") for b in blocks] + [("outside", b) for b in blocks])]
            with ctx.code("preparing the timetables"):
                td = world.load(trains, net, df())
            judge(ctx, net, {t["number"]: [b for b, _ in t["rows"]] for t in trains}, td)
        return
    for net, routes, td in sets.worlds(inst):
        judge(ctx, net, routes, td)
        ctx.sample({"network": net.name, "routes": {j: list(r) for j, r in routes.items()}})
