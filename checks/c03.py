"""C03: itineraries and station queries agree with the blocks travelled."""
import itertools

from mc import prepared, ref_data as ref, shipped, world
from mc.prepared import df

PROPERTY = "C03"
BOUND = {
    "quick": "all ordered pairs of routes of the networks 'single', 'katowice' and 'braid' and all station pairs; all block "
             "sequences of length 2 and 3 of 'single'; all shipped timetables, all pairs of trains",
    "thorough": "as quick with all pairs of routes of up to 5 blocks of the network 'line' and block sequences of length 4",
}
ASSUMPTIONS = ["no route visits a block or a station twice"]
SPECS = [("single",), ("katowice",), ("braid",)]
LINE = ("line", 5, 2)


def instances(tier):
    for name in shipped.DATASETS:
        shards = {"KO_GLC": 4, "KO_RCB": 2}.get(name, 1)
        for k in range(shards):
            yield ("shipped", name, k, shards)
    specs = SPECS + ([LINE] if tier == "thorough" else [])
    for spec in specs:
        n = prepared.route_count(*spec)
        for i in range(n):
            yield ("pairs", spec, i)
    for first in range(11):
        yield ("continuity", first, 4 if tier == "thorough" else 3)


def judge_train(ctx, net, route, entry):
    d = df()
    so = net.station_of
    it = ref.itinerary(route, so)
    table = entry[1]
    ctx.same(list(d.train_important_stations(table)), it, "stations of the train")
    for s in net.stations:
        ctx.step()
        ctx.same(bool(d.is_train_passing_thru_station(table, s)), s in it, f"calls at {s}")
        nxt = it[it.index(s) + 1] if s in it and it.index(s) + 1 < len(it) else None
        ctx.same(d.subsequent_station(table, s), nxt, f"station after {s}")
        want = {b for b in route if so.get(b) == s}
        ctx.same(set(d.blocks_list_4station(table, s, net.stations)), want, f"blocks of the train at {s}")
        for s2 in net.stations:
            ctx.step()
            blocks, rev = d.get_blocks_b2win_station4train(table, s, s2, verbose=False)
            if s not in it or s2 not in it:
                ctx.same((list(blocks), rev), ([], None), f"blocks between {s} and {s2}, not both visited")
            elif it.index(s) > it.index(s2):
                ctx.same((list(blocks), bool(rev)), ([], True), f"blocks between {s} and {s2}, against the direction")
            else:
                want = [] if s == s2 else list(ref.between(route, s, s2, so))
                ctx.same((list(blocks), bool(rev)), (want, False), f"blocks between {s} and {s2}")


def judge_set(ctx, net, routes, td):
    d = df()
    so = net.station_of
    its = {j: ref.itinerary(r, so) for j, r in routes.items()}
    paths = d.get_Paths(td)
    ctx.same({j: list(p) for j, p in paths.items()}, its, "itineraries")
    ctx.same(sorted(d.get_J(td)), sorted(routes), "trains")
    here = d.get_trains_at_station(td, net.stations)
    leave = d.get_trains_at_station(td, net.stations, only_departue=True)
    for s in net.stations:
        want = {j for j in routes if s in its[j]}
        ctx.same(sorted(here.get(s, [])), sorted(want), f"trains at {s}")
        want = {j for j in want if so.get(routes[j][-1]) != s}
        ctx.same(sorted(leave.get(s, [])), sorted(want), f"trains leaving {s}")
    skip = d.get_skip_stations(td)
    want = {j: so[r[-1]] for j, r in routes.items() if r[-1] in so}
    ctx.same(dict(skip), want, "stations at which trains end")


def judge_pair(ctx, net, routes, td, j, jp):
    d = df()
    so = net.station_of
    r1, r2 = routes[j], routes[jp]
    i1, i2 = ref.itinerary(r1, so), ref.itinerary(r2, so)
    common = set(i1) & set(i2)
    got = d.check_common_station(td, j, jp)
    ctx.same((set(got), len(got)), (common, len(common)), "stations in common")
    for s, s2 in itertools.permutations(sorted(common), 2):
        ctx.step()
        b1 = ref.between(r1, s, s2, so) if i1.index(s) < i1.index(s2) else ref.between(r1, s2, s, so)
        b2 = ref.between(r2, s, s2, so) if i2.index(s) < i2.index(s2) else ref.between(r2, s2, s, so)
        same = (i1.index(s) < i1.index(s2)) == (i2.index(s) < i2.index(s2))
        blocks, direction = d.get_common_blocks_and_direction_b2win_trains(td, j, jp, s, s2)
        ctx.outcome((direction, len(blocks)))
        ctx.same(direction, "same" if same else "opposite", f"direction between {s} and {s2}")
        ctx.same(sorted(blocks), sorted(set(b1) & set(b2)), f"blocks in common between {s} and {s2}")


def examine(inst, ctx):
    kind = inst[0]
    d = df()
    if kind == "shipped":
        c = shipped.case(ctx.repo, inst[1])
        td = shipped.prepared(ctx.repo, inst[1])
        if inst[2] == 0:
            judge_set(ctx, c, c.routes, td)
        table = c.table.iloc[:, :2]
        for n, (j, r) in enumerate(c.routes.items()):
            if n % inst[3] != inst[2]:
                continue
            ctx.trace()
            ctx.state()
            judge_train(ctx, c, r, td[j])
            with ctx.code(f"continuity of train {j}"):
                d.check_path_continuity(td[j][1]["path"], table)
        for n, (j, jp) in enumerate(itertools.combinations(c.routes, 2)):
            if n % inst[3] != inst[2]:
                continue
            ctx.state()
            judge_pair(ctx, c, c.routes, td, j, jp)
        return
    if kind == "pairs":
        _, spec, i = inst
        routes, ents = prepared.entries(*spec)
        net = world.net(spec[0])
        judge_train(ctx, net, routes[i], ents[i])
        for k in range(len(routes)):
            rs = {41: routes[i], 9: routes[k]}
            td = {41: ents[i], 9: ents[k]}
            ctx.state()
            ctx.trace()
            judge_pair(ctx, net, rs, td, 41, 9)
            if k % 7 == i % 7:
                judge_set(ctx, net, rs, td)
        if i == 5:
            ctx.sample({"network": spec[0], "first train": routes[i], "second trains": len(routes)})
        return
    if kind == "continuity":
        import pandas as pd

        net = world.net("single")
        table = net.table().iloc[:, :2]
        blocks = sorted(net.next) + ["unknown"]
        for n in range(2, inst[2] + 1):
            for rest in itertools.product(blocks, repeat=n - 1):
                seq = (sorted(net.next) + ["unknown"])[inst[1] % len(blocks)], *rest
                ctx.state()
                ctx.trace()
                good = all(net.joined(a, b) for a, b in zip(seq, seq[1:]))
                ctx.step(n - 1)
                try:
                    d.check_path_continuity(pd.Series(seq), table)
                    ok = True
                except AssertionError:
                    ok = False
                ctx.outcome((n, ok))
                ctx.same(ok, good, f"continuity of {seq}")
