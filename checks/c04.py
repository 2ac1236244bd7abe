"""C04: trains are grouped by the exact line track they use between stations."""
from mc import ref_data as ref, sets
from mc.prepared import df

PROPERTY = "C04"
BOUND = {
    "quick": "all ordered pairs of routes of the networks 'single', 'katowice' and 'braid' and of routes of up to 4 blocks of "
             "'line'; all ordered triples of the core routes of 'single'; all shipped timetables",
    "thorough": "as quick with routes of up to 5 blocks of 'line' and triples of 'katowice'",
}
ASSUMPTIONS = ["no route visits a block or a station twice"]


def instances(tier):
    yield from sets.shipped_instances()
    big = tier == "thorough"
    yield from sets.pair_instances([("single",), ("katowice",), ("braid",), ("line", 5 if big else 4, 2)])
    yield from sets.triple_instances([("single",)], None if big else 8)
    if big:
        yield from sets.triple_instances([("katowice",)], 14)


def judge(ctx, net, routes, td):
    with ctx.code("grouping the trains"):
        got = df().jd(td, net.stations)
    ctx.trace()
    ctx.state()
    want = ref.line_groups(routes, net.station_of)
    seen = {}
    for s in got:
        for s2, groups in got[s].items():
            ctx.step(len(groups))
            flat = [j for g in groups for j in g]
            if len(flat) != len(set(flat)):
                ctx.fail(f"a train is listed twice from {s} to {s2}: {groups}")
            if flat:
                seen[(s, s2)] = {frozenset(g) for g in groups if g}
    ctx.outcome(tuple(sorted((k, tuple(sorted(map(len, v)))) for k, v in want.items())))
    if seen != want:
        ctx.fail(f"groups {seen} instead of {want} for the routes {routes}")


def examine(inst, ctx):
    if inst[0] == "shipped":
        judge(ctx, *sets.shipped_world(ctx, inst))
        return
    for net, routes, td in sets.worlds(inst):
        judge(ctx, net, routes, td)
        ctx.sample({"network": net.name, "routes": {j: list(r) for j, r in routes.items()},
                    "groups": {str(k): [sorted(g) for g in v] for k, v in ref.line_groups(routes, net.station_of).items()}})
