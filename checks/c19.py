"""C19: all rules together admit exactly the conflict-free timetables."""
import copy
import itertools

from mc import derive, lpx, problems, ref_lp, sets, world

PROPERTY = "C19"
BOUND = {
    "quick": "every delay vector (d_max 2) of the problems of all ordered pairs of routes of the networks 'single' and "
             "'katowice' and of the routes of up to 5 blocks and 2 stations of 'line', with 4 patterns of times, 3 "
             "listings, with and without common stock; all ordered triples of 11 core routes of 'single' with two patterns "
             "of times, 3 listings and all stock assignments; every problem built twice",
    "thorough": "as quick with d_max 3 and triples of 16 core routes",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems",
               "opposite trains on different tracks with common switches at both ends may share one order there (finding of C17)"]
SPECS = (("single",), ("katowice",), ("line", 5, 2))
TIMES = ((0, 2), (2, 0), (-3, 1), (5, 3))


def instances(tier):
    yield from sets.pair_instances(SPECS)
    yield from sets.triple_instances([("single",)], 16 if tier == "thorough" else 11)


def times(ts, pattern, k):
    """k: number of the pattern"""
    js = sorted(ts["J"], key=str)
    first = {j: (0 if i == 0 else pattern[(i - 1) % 2]) for i, j in enumerate(js)}
    return problems.times(
        ts, first, lambda j, s, s2: 1 + (js.index(j) + k) % 3, stop=lambda j, s: (js.index(j) + k) % 2,
        headway=lambda j, jp, s, s2: 1 + (js.index(j) < js.index(jp)), prep=1, res=1,
        weights={f"{j}_{ts['Paths'][j][0]}": 1.0 for j in js})


def shape(prob):
    return {name: (sorted((v.name, float(a)) for v, a in c.items() if a), round(float(c.constant), 9), c.sense)
            for name, c in prob.constraints.items()}, sorted((v.name, float(a)) for v, a in prob.objective.items())


def judge(ctx, net, routes, patterns):
    base = derive.train_sets(net, routes)
    for k, p in enumerate(patterns):
        for n, ts in enumerate(problems.listings(base)):
            tt = times(ts, p, k)
            if any(len(x) == 1 and ts["skip_station"].get(j) == x[0] for j, x in ts["Paths"].items()):
                # a train without any counted departure is outside of the alphabet
                return
            before = copy.deepcopy((ts, tt))
            d_max = 3 if ctx.tier == "thorough" else 2
            prob = lpx.build(ctx, ts, tt, d_max)
            if n == 0:
                again = lpx.build(ctx, ts, tt, d_max)
                if shape(prob) != shape(again):
                    ctx.fail(f"building the problem twice gives two different problems; sets {ts}, times {tt}")
                ctx.trace()
            if (ts, tt) != before:
                ctx.fail(f"building the problem changed its inputs from {before} to {(ts, tt)}")
            lpx.compare(ctx, ts, tt, d_max, prob=prob)
    for rule in ("Jd", "Josingle", "Jtrack", "Jswitch", "Jround"):
        if any(base[rule].values()):
            ctx.count("problems_with_" + rule)


def examine(inst, ctx):
    net = world.net(inst[1][0])
    if inst[0] == "pairs":
        _, spec, i = inst
        routes = net.routes(min_blocks=2, max_blocks=spec[1] if len(spec) > 1 else 8,
                            min_stations=spec[2] if len(spec) > 2 else 1)
        for k in range(len(routes)):
            judge(ctx, net, {1: routes[i], 2: routes[k]}, TIMES)
            stock = {1: routes[i], 19: routes[k]}
            if derive.stock_ok(stock, net.station_of):
                judge(ctx, net, stock, TIMES)
        ctx.sample({"network": net.name, "first route": routes[i], "second routes": len(routes)})
    else:
        _, spec, a, b, limit = inst
        routes = net.routes(min_blocks=2)
        for c in sets.core_routes(spec)[:limit]:
            r = (routes[a], routes[b], routes[c])
            for numbers in ((1, 2, 3), (1, 19, 2), (1, 2, 29), (1, 2, 19)):
                world_ = dict(zip(numbers, r))
                if derive.stock_ok(world_, net.station_of):
                    judge(ctx, net, world_, TIMES[:2])


def finish(ctx, tier):
    missing = [r for r in ("Jd", "Josingle", "Jtrack", "Jswitch", "Jround") if not ctx.counts.get("problems_with_" + r)]
    if missing or not ctx.counts.get("accepted") or not ctx.counts.get("refused"):
        return f"the exploration is vacuous: {missing}"
