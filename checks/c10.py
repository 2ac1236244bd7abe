"""C10: headways are the smallest departure spacing that keeps the blocks clear."""
import itertools

from mc import ref_data as ref, shipped, world
from mc.prepared import df

PROPERTY = "C10"
TIMES = (1.0, 2.6, 6.0)
SECTIONS = (("P", "Q"), ("KO(STM)", "KZ"), ("KZ", "KO(STM)"), ("CM", "CB"), ("KZ", "CB"))
BOUND = {
    "quick": "two trains over a line of 0..3 blocks with every assignment of the running times 1, 2.6, 6, and of 4 and 5 "
             "blocks with every assignment of 1, 6, to every block of each train (one block less on the sections cleared "
             "by one block), rounded and not; two trains over three blocks between every two "
             "stations of the shipped station lists, in both directions; all shipped timetables",
    "thorough": "as quick with every assignment of three times on 4 blocks",
}
ASSUMPTIONS = ["at an exact half both neighbouring integers count as rounding",
               "entries for trains on different tracks are not judged: no constraint uses them"]
_cache = {}


def times(tier, n):
    return TIMES if n < (5 if tier == "thorough" else 4) else (TIMES[0], TIMES[2])


def instances(tier):
    for name in shipped.DATASETS:
        for r in (0, 1):
            if name in ("KO_GLC", "KO_RCB") and tier != "thorough":
                # every pair of trains is in one of the halves
                for quarters in itertools.combinations(range(4), 2):
                    yield ("shipped", name, r, quarters)
            else:
                yield ("shipped", name, r, (0, 1, 2, 3))
    for part in range(16):
        yield ("sections", part)
    for section in range(len(SECTIONS)):
        for n in range(6 - (section != 0)):
            for first in itertools.product(times(tier, n), repeat=min(n, 3)):
                yield ("line", section, n, first)


def line(section, n):
    """two trains over n blocks between the stations of the section"""
    key = (section, n)
    if key not in _cache:
        a, b = SECTIONS[section]
        blocks = [f"l{i}" for i in range(n)]
        chain = ["a1"] + blocks + ["b1"]
        net = world.Net("chain", {a: ["a1"], b: ["b1"]}, [(x, y, ()) for x, y in zip(chain, chain[1:])])
        d = world.load([world.train(5, chain), world.train(15, chain)], net, df())
        _cache[key] = (net, chain, d)
    return _cache[key]


def check(ctx, key, value, exact, r):
    ctx.step()
    ctx.outcome(round(exact, 6))
    if not (ref.is_rounding(value, exact) if r else ref.close(value, exact)):
        ctx.fail(f"headway {key} (rounded: {bool(r)}): {value!r}, the smallest spacing is {exact!r}")


def examine(inst, ctx):
    if inst[0] == "shipped":
        _, name, r, quarters = inst
        c = shipped.case(ctx.repo, name)
        chosen = [j for i, j in enumerate(c.routes) if i % 4 in quarters]
        td = shipped.prepared(ctx.repo, name)
        td = {j: td[j] for j in chosen}
        with ctx.code("headways"):
            got = df().get_taus_headway(td, c.stations, r=r)
        ctx.trace()
        ctx.state()
        for (s, s2), gs in ref.line_groups({j: c.routes[j] for j in chosen}, c.station_of).items():
            for j, jp in (p for g in gs for p in itertools.permutations(sorted(g), 2)):
                key = f"{j}_{jp}_{s}_{s2}"
                if key not in got:
                    ctx.fail(f"no headway {key}")
                blocks = ref.between(c.routes[j], s, s2, c.station_of)
                t1, t2 = (dict(zip(c.routes[x], c.leave_times(x))) for x in (j, jp))
                exact = ref.headway([t1[b] for b in blocks], [t2[b] for b in blocks], ref.blocks_ahead(s, s2))
                check(ctx, key, float(got[key]), exact, r)
        return
    if inst[0] == "sections":
        names = sorted({s for name in shipped.DATASETS for s in shipped.stations(ctx.repo, name)})
        for a, b in list(itertools.permutations(names, 2))[inst[1]::16]:
            chain = ["a1", "l0", "l1", "l2", "b1"]
            net = world.Net("section", {a: ["a1"], b: ["b1"]}, [(x, y, ()) for x, y in zip(chain, chain[1:])])
            with ctx.code("preparing the timetables"):
                td = world.load([world.train(5, chain), world.train(15, chain, speed="IC")], net, df())
            with ctx.code("headways"):
                got = df().get_taus_headway(td, net.stations, r=0)
            ctx.trace()
            ctx.state()
            t = {x: [net.time(p, q, v) for p, q in zip(chain[1:], chain[2:])] for x, v in ((5, "R"), (15, "IC"))}
            for x, y in ((5, 15), (15, 5)):
                key = f"{x}_{y}_{a}_{b}"
                if key not in got:
                    ctx.fail(f"no headway {key}")
                check(ctx, key, float(got[key]), ref.headway(t[x], t[y], ref.blocks_ahead(a, b)), 0)
        return
    _, section, n, first = inst
    net, chain, d = line(section, n)
    a, b = SECTIONS[section]
    k = ref.blocks_ahead(a, b)
    tables = [d[5][1].copy(), d[15][1].copy()]
    td = {5: [d[5][0], tables[0]], 15: [d[15][0], tables[1]]}
    for rest in itertools.product(times(ctx.tier, n), repeat=n - len(first)):
        t1 = list(first + rest)
        tables[0]["passing_time"] = [0.7] + t1 + [float("nan")]
        for t2 in itertools.product(times(ctx.tier, n), repeat=n):
            tables[1]["passing_time"] = [0.9] + list(t2) + [float("nan")]
            ctx.state()
            for r in (0, 1):
                with ctx.code("headways"):
                    got = df().get_taus_headway(td, net.stations, r=r)
                ctx.trace()
                for x, y, tx, ty in ((5, 15, t1, t2), (15, 5, t2, t1)):
                    key = f"{x}_{y}_{a}_{b}"
                    if key not in got:
                        ctx.fail(f"no headway {key}")
                    check(ctx, key, float(got[key]), ref.headway(list(tx), list(ty), k), r)
    ctx.sample({"section": [a, b], "blocks": n, "times of the first train": first})
