"""C05: every head-on pair on a shared single track is found, and no other."""
from mc import ref_data as ref, sets
from mc.prepared import df

PROPERTY = "C05"
BOUND = {
    "quick": "all ordered pairs of routes of the networks 'single', 'katowice' and 'braid' and of routes of up to 4 blocks of "
             "'line'; all ordered triples of the core routes of 'single'; all shipped timetables",
    "thorough": "as quick with routes of up to 5 blocks of 'line' and triples of 'katowice'",
}
ASSUMPTIONS = ["no route visits a block or a station twice",
               "partially shared opposite tracks are outside of the model, as the code announces"]


def instances(tier):
    yield from sets.shipped_instances()
    big = tier == "thorough"
    yield from sets.pair_instances([("single",), ("katowice",), ("braid",), ("line", 5 if big else 4, 2)])
    yield from sets.triple_instances([("single",)], None if big else 10)
    if big:
        yield from sets.triple_instances([("katowice",)], 14)


def judge(ctx, net, routes, td):
    with ctx.code("finding head-on pairs"):
        got = df().josingle(td, net.stations)
    ctx.trace()
    ctx.state()
    want = ref.head_on(routes, net.station_of)
    seen = set()
    for (s, s2), pairs in got.items():
        for pair in pairs:
            ctx.step()
            j, jp = pair
            key = frozenset(((j, s), (jp, s2)))
            if key in seen:
                ctx.fail(f"the pair {pair} between {s} and {s2} is listed twice")
            seen.add(key)
    ctx.outcome(tuple(sorted(len(x) for x in [want])))
    ctx.count("head_on_pairs", len(want))
    if seen != want:
        ctx.fail(f"head-on pairs {sorted(map(sorted, seen))} instead of {sorted(map(sorted, want))} for the routes {routes}")


def examine(inst, ctx):
    if inst[0] == "shipped":
        judge(ctx, *sets.shipped_world(ctx, inst))
        return
    for net, routes, td in sets.worlds(inst):
        judge(ctx, net, routes, td)
        if ref.head_on(routes, net.station_of):
            ctx.sample({"network": net.name, "routes": {j: list(r) for j, r in routes.items()}})
