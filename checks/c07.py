"""C07: every pair of trains using a common switch is found, with its role."""
import itertools

from mc import ref_data as ref, sets, world
from mc.prepared import df

PROPERTY = "C07"
BOUND = {
    "quick": "all ordered pairs of routes of the networks 'single', 'katowice' and 'braid' and of routes of up to 4 blocks of "
             "'line'; a station of two tracks with four entry steps, every assignment of {1}, {2}, {1,2} to the steps, "
             "all routes at once; every pair of notations of the switch cell on every pair of steps; all shipped timetables",
    "thorough": "as quick with every assignment of the 7 non-empty subsets of {1,2,3} and routes of up to 5 blocks of 'line'",
}
ASSUMPTIONS = ["no route visits a block or a station twice",
               "a switch cell is empty, a number, a comma separated text or two numbers read as a decimal number",
               "the column of switches holds texts and numbers, as in the shipped table"]
# notations and the switches they stand for
CELLS = [("1", {1}), (1, {1}), ("1,2", {1, 2}), ("1, 2", {1, 2}), (1.2, {1, 2}), (2.1, {1, 2}), ("12", {12}),
         (12, {12}), ("12,1", {1, 12}), (12.13, {12, 13}), ("2,2,13", {2, 13}), (None, set())]
SMALL = [(1,), (2,), (1, 2)]
FULL = [(1,), (2,), (3,), (1, 2), (1, 3), (2, 3), (1, 2, 3)]


def instances(tier):
    yield from sets.shipped_instances()
    big = tier == "thorough"
    yield from sets.pair_instances([("single",), ("katowice",), ("braid",), ("line", 5 if big else 4, 2)])
    for combo in itertools.product(range(len(FULL if big else SMALL)), repeat=4):
        yield ("steps", combo, big)
    for a, b in itertools.product(range(len(CELLS)), repeat=2):
        yield ("cells", a, b)


def station_net(cells):
    st = {"L": ["L1"], "S": ["S1", "S2"], "R": ["R1"]}
    e = [("L1", "l1", "90"), ("l1", "S1", cells[0]), ("S2", "l1", cells[1]), ("S1", "r1", cells[2]),
         ("r1", "S2", cells[3]), ("r1", "R1", "91,92")]
    return world.Net("station", st, e)


def judge(ctx, net, routes, td, switches=None, table=None):
    with ctx.code("finding pairs at switches"):
        got = df().jswitch(td, net.stations, net.table if hasattr(net, "rows") else (table if table is not None else net.table()))
    ctx.trace()
    ctx.state()
    want = ref.switch_pairs(routes, net.station_of, switches or net.switches)
    seen = {}
    for s, pairs in got.items():
        for p in pairs:
            ctx.step()
            key = frozenset(p.items())
            if len(p) != 2:
                ctx.fail(f"not a pair at {s}: {p}")
            if key in seen.setdefault(s, set()):
                ctx.fail(f"the pair {p} at {s} is listed twice")
            seen[s].add(key)
    seen = {s: v for s, v in seen.items() if v}
    ctx.outcome(tuple(sorted((s, tuple(sorted(tuple(sorted(r for _, r in k)) for k in v))) for s, v in want.items())))
    ctx.count("pairs_at_switches", sum(map(len, want.values())))
    if seen != want:
        diff = {s: (seen.get(s, set()) ^ want.get(s, set())) for s in set(seen) | set(want)}
        ctx.fail(f"pairs at switches differ: listed {({s: v & seen.get(s, set()) for s, v in diff.items() if v})}, "
                 f"missing {({s: v & want.get(s, set()) for s, v in diff.items() if v})}; routes {dict(list(routes.items())[:6])}")


def examine(inst, ctx):
    kind = inst[0]
    if kind == "shipped":
        judge(ctx, *sets.shipped_world(ctx, inst))
        return
    if kind == "pairs":
        table = world.net(inst[1][0]).table()
        for net, routes, td in sets.worlds(inst):
            judge(ctx, net, routes, td, table=table)
        return
    if kind == "steps":
        cells = [(FULL if inst[2] else SMALL)[i] for i in inst[1]]
        net = station_net(cells)
        sw = net.switches
        routes = net.routes(min_stations=2)
        tr = [world.train(10 + i, r) for i, r in enumerate(routes)]
        with ctx.code("preparing"):
            td = world.load(tr, net, df())
        ctx.sample({"switches of the steps": cells, "trains": len(tr)})
        judge(ctx, net, {10 + i: r for i, r in enumerate(routes)}, td,
              lambda a, b: {int(x) for x in world.switch_cell(sw(a, b)).split(",")})
        return
    # two notations, on every two different steps, with the trains that use them
    (ca, wa), (cb, wb) = CELLS[inst[1]], CELLS[inst[2]]
    for i, k in itertools.permutations(range(4), 2):
        cells = ["70", "71", "72", "73"]
        sets_ = [{70}, {71}, {72}, {73}]
        cells[i], cells[k] = ca, cb
        sets_[i], sets_[k] = wa, wb
        net = station_net(cells)
        table = net.table()
        steps = [frozenset(e[:2]) for e in net.edges]
        truth = {steps[0]: {90}, steps[5]: {91, 92}}
        truth.update({steps[n + 1]: sets_[n] for n in range(4)})
        routes = {7: ("L1", "l1", "S1", "r1", "R1"), 8: ("R1", "r1", "S2", "l1", "L1"),
                  9: ("L1", "l1", "S2", "r1", "R1"), 10: ("R1", "r1", "S1", "l1", "L1")}
        with ctx.code("preparing"):
            td = world.load([world.train(j, r) for j, r in routes.items()], net, df())
        judge(ctx, net, routes, td, lambda a, b: truth[frozenset((a, b))], table)
