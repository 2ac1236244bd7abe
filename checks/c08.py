"""C08: trains sharing rolling stock are paired in running order at their station."""
import itertools

from mc import ref_data as ref, sets, world
from mc.prepared import df

PROPERTY = "C08"
POOL = (1, 19, 199, 9, 99, 119, 10, 109, 2)
BOUND = {
    "quick": "all listing orders of up to 3 of 9 train numbers over all assignments of 7 routes for which every pair "
             "of the same stock meets at one end or at both; all shipped timetables",
    "thorough": "as quick with up to 4 train numbers",
}
ASSUMPTIONS = ["of two trains of one rolling stock one starts on the track on which the other ends; where this is so at "
               "both ends, either of the two is accepted as the place of the change"]
ROUTES = (("A1", "s1", "s2", "B1"), ("B1", "s2", "s1", "A1"), ("B1", "t1", "C1"), ("C1", "t1", "B1"),
          ("A2", "s1", "s2", "B2"), ("B2", "t1", "C1"), ("s1", "s2", "B1"))
_cache = {}


def meets(a, b):
    """blocks on which one of the routes starts and the other ends"""
    return [x[0] for x, y in ((a, b), (b, a)) if x[0] == y[-1]]


def instances(tier):
    yield from sets.shipped_instances()
    for n in range(1, (4 if tier == "thorough" else 3) + 1):
        for numbers in itertools.permutations(POOL, n):
            if n == 4 and not any(b == 10 * a + 9 for a in numbers for b in numbers):
                continue
            yield ("numbers", numbers)


def prepare(ctx):
    net = world.net("single")
    d = world.load([world.train(100 + i, r) for i, r in enumerate(ROUTES)], net, df())
    _cache["e"] = [d[100 + i] for i in range(len(ROUTES))]


def both_ends(net, routes):
    """the two places where the stock of a pair may change, if there are two"""
    for j, jp in itertools.permutations(routes, 2):
        if str(jp) == str(j) + "9" and routes[j][0] == routes[jp][-1] and routes[jp][0] == routes[j][-1]:
            yield ((net.station_of[routes[j][0]], (jp, j)), (net.station_of[routes[jp][0]], (j, jp)))


def judge(ctx, net, routes, td):
    with ctx.code("pairing by number"):
        pairs = df().get_trains_pair9(td)
    want = {(j, jp) for j in routes for jp in routes if str(jp) == str(j) + "9"}
    ctx.same(sorted(map(tuple, pairs)), sorted(want), "pairs of numbers")
    with ctx.code("pairing of rolling stock"):
        got = df().get_jround(td, net.stations)
    ctx.trace()
    ctx.state()
    want = ref.stock_pairs(routes, net.station_of)
    seen = {}
    for s, v in got.items():
        for p in v:
            ctx.step()
            if tuple(p) in seen.setdefault(s, set()):
                ctx.fail(f"the pair {p} is listed twice at {s}")
            seen[s].add(tuple(p))
    seen = {s: v for s, v in seen.items() if v}
    ctx.outcome(tuple(sorted((s, tuple(sorted(v))) for s, v in want.items())))
    for first, second in both_ends(net, routes):
        # the place in the answer decides, as long as it is one of the two
        place = [p for p in (first, second) if p[1] in seen.get(p[0], ())]
        if len(place) != 1:
            ctx.fail(f"the pair of rolling stock {first[1]} is listed {len(place)} times; routes {routes}, pairs {seen}")
            return
        for s, p in (first, second):
            want.get(s, set()).discard(p)
        want.setdefault(place[0][0], set()).add(place[0][1])
    want = {s: v for s, v in want.items() if v}
    if seen != want:
        ctx.fail(f"rolling stock pairs {seen} instead of {want} for the routes {routes}")


def examine(inst, ctx):
    if inst[0] == "shipped":
        judge(ctx, *sets.shipped_world(ctx, inst))
        return
    numbers = inst[1]
    net = world.net("single")
    pairs = [(i, k) for i, a in enumerate(numbers) for k, b in enumerate(numbers) if b == 10 * a + 9]
    for choice in itertools.product(range(len(ROUTES)), repeat=len(numbers)):
        r = [ROUTES[i] for i in choice]
        if any((r[i][0] == r[k][-1]) + (r[k][0] == r[i][-1]) == 0 for i, k in pairs):
            continue
        if not pairs and sum(choice):
            break  # without a pair the routes do not matter
        if any(x not in net.station_of for i, k in pairs for x in meets(r[i], r[k])):
            continue
        judge(ctx, net, dict(zip(numbers, r)), {n: _cache["e"][i] for n, i in zip(numbers, choice)})
        if pairs:
            ctx.sample({"trains": {n: ROUTES[i] for n, i in zip(numbers, choice)}})
