"""C13: each train is weighted once, at its last counted station, by its category."""
import itertools

from mc import sets, shipped, world
from mc.prepared import df

PROPERTY = "C13"
KIND = {"KS - Os": "stopping", "PR - R": "stopping", "KS - OsP": "stopping", "IC - TLK": "fast", "IC - IC": "fast",
        "IC - EIP": "express", "IC - EIC": "express"}
NUMBERS = (1, 19, 10, 15, 199, 190, 2, 29)
ROUTES = (("A1", "s1", "s2", "B1"), ("A1", "s1", "s2", "B1", "t1"), ("t1", "B2", "s2", "s1", "A2"))
VALUES = ({}, {"stopping": 3, "fast": 5, "express": 7, "empty": 11})
BOUND = {
    "quick": "all sets of up to 3 of 8 train numbers with and without partner, all assignments of the 7 categories to up "
             "to 2 trains (3 to three trains), 3 routes, last stations counted, all uncounted or as derived from the "
             "timetable, default and given values; all shipped timetables",
    "thorough": "as quick with all 7 categories on three trains",
}
ASSUMPTIONS = ["a train whose last station is not counted has at least two stations"]
_cache = {}


def instances(tier):
    yield from sets.shipped_instances()
    for n in (1, 2, 3):
        for numbers in itertools.permutations(NUMBERS, n):
            if n == 3 and list(numbers) != sorted(numbers):
                continue
            yield ("numbers", numbers, 7 if n < 3 or tier == "thorough" else 3)


def weights(routes, category, skip, station_of, values):
    v = {"stopping": 1, "fast": 1.5, "express": 1.75, "empty": 0}
    v.update(values)
    out = {}
    for j, r in routes.items():
        stops = [station_of[b] for b in r if b in station_of]
        s = stops[-1]
        if skip.get(j) == s:
            s = stops[-2]
        moved = any(str(j) == str(k) + "9" for k in routes)
        out[f"{j}_{s}"] = v["empty"] if moved else v[KIND[category[j]]]
    return out


def judge(ctx, routes, category, skip, station_of, td, values):
    with ctx.code("weights"):
        got = df().make_weights(td, skip, **values)
    ctx.trace()
    ctx.state()
    want = weights(routes, category, skip, station_of, values)
    ctx.step(len(want))
    ctx.outcome(tuple(sorted(want.values())))
    if dict(got) != want:
        bad = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        ctx.fail(f"weights (code, expected): {bad}; trains {sorted(routes)}, uncounted {skip}")


def prepare(ctx):
    net = world.net("single")
    d = world.load([world.train(100 + i, r) for i, r in enumerate(ROUTES)], net, df())
    _cache["e"] = [d[100 + i] for i in range(len(ROUTES))]


def examine(inst, ctx):
    if inst[0] == "shipped":
        c = shipped.case(ctx.repo, inst[1])
        td = shipped.prepared(ctx.repo, inst[1])
        category = {t["number"]: t["category"] for t in c.trains}
        ends = {j: c.station_of[r[-1]] for j, r in c.routes.items() if r[-1] in c.station_of}
        for skip in ({}, ends):
            for values in VALUES:
                judge(ctx, c.routes, category, skip, c.station_of, td, values)
        return
    _, numbers, n_categories = inst
    net = world.net("single")
    categories = list(KIND)[::-1][:n_categories] if n_categories == 7 else ["KS - Os", "IC - TLK", "IC - EIC"]
    for cats in itertools.product(categories, repeat=len(numbers)):
        for shift in range(3):
            routes = {j: ROUTES[(i + shift) % 3] for i, j in enumerate(numbers)}
            td = {}
            for i, (j, c) in enumerate(zip(numbers, cats)):
                head, table = _cache["e"][(i + shift) % 3]
                td[j] = [[c] + list(head[1:]), table]
            category = dict(zip(numbers, cats))
            last = {j: net.itinerary(r)[-1] for j, r in routes.items()}
            derived = {j: net.station_of[r[-1]] for j, r in routes.items() if r[-1] in net.station_of}
            first = {j: net.itinerary(r)[0] for j, r in routes.items()}
            for skip in ({}, last, derived, first):
                for values in VALUES:
                    judge(ctx, routes, category, skip, net.station_of, td, values)
    ctx.sample({"trains": numbers})
