"""C17: trains pass a common switch at least the switching time apart."""
import itertools

from mc import lpx, problems

PROPERTY = "C17"
PATHS = (("P", "S", "N"), ("Q", "S", "N"), ("Q", "S", "P"), ("P", "S"), ("S", "N"), ("S", "P"), ("N", "S", "Q"))
BOUND = {
    "quick": "every delay vector (d_max 3, and 1 or 5) of all ordered pairs of 7 routes through S and all non-empty sets of "
             "the role combinations (entering or leaving) listed for them, on the same or parallel lines, single or double "
             "track for opposite trains, planned passings apart by -5..6, switching time 1 or 2, 3 listings; the trains of "
             "one rolling stock; opposite trains with common switches at both ends; all triples of 5 routes with all their "
             "role combinations, d_max 2",
    "thorough": "as quick with planned passings apart by -8..9 and d_max 4 instead of 3",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems",
               "every train that travels is listed on its line (as prepared by the data part)"]


def roles(path):
    i = path.index("S")
    return (["in"] if i else []) + (["out"] if i < len(path) - 1 else [])


def combos(a, b):
    return list(itertools.product(roles(a), roles(b)))


def instances(tier):
    gaps = (-8, 9) if tier == "thorough" else (-5, 6)
    for a, b in itertools.product(PATHS, repeat=2):
        all_roles = combos(a, b)
        for n in range(1, len(all_roles) + 1):
            for chosen in itertools.combinations(all_roles, n):
                for tracks in (0, 1):
                    yield ("two", a, b, chosen, tracks) + gaps
    for gap in range(-5, 8):
        yield ("stock", gap)
        for single in (0, 1):
            yield ("both ends", gap, single)
    for three in itertools.product((("P", "S", "N"), ("Q", "S", "P"), ("P", "S"), ("S", "N"), ("S", "P")), repeat=3):
        for tracks in (0, 1):
            yield ("three", three, tracks)


def make(paths, switch, tracks):
    """tracks: the second train on a parallel track, opposite trains on double track"""
    parallel = {}
    if tracks:
        second = list(paths)[1]
        parallel = {(second, s, s2): 1 for s, s2 in zip(paths[second], paths[second][1:])}
    single = {}
    if not tracks:
        for (j, p), (jp, pp) in itertools.combinations(paths.items(), 2):
            for s, s2 in zip(p, p[1:]):
                if (s2, s) in list(zip(pp, pp[1:])):
                    single.setdefault((s, s2), []).append((j, jp))
    return problems.sets(paths, Jd=problems.lines(paths, parallel), Josingle=single, Jswitch=switch)


def judge(ctx, ts, tt, d_max):
    """as compare; opposite trains on different tracks with common switches at both ends
    of a section are known to be tied"""
    def tied():
        ctx.note("opposite trains on different tracks that meet common switches at both ends of a section are forced into "
                 f"one order: sets {ts}, times {tt}", key="opposite-trains-both-ends")

    lpx.compare(ctx, ts, tt, d_max, tied=tied)


def examine(inst, ctx):
    d_big = 4 if ctx.tier == "thorough" else 3
    if inst[0] == "two":
        _, a, b, chosen, tracks, lo, hi = inst
        base = make({1: a, 2: b}, {"S": [{1: x, 2: y} for x, y in chosen]}, tracks)
        for gap in range(lo, hi + 1):
            for res in (1, 2):
                for ts in problems.listings(base):
                    tt = problems.times(ts, {1: 0, 2: gap}, lambda j, s, s2: (3, 2)[j - 1], headway=1, res=res)
                    lpx.compare(ctx, ts, tt, d_big)
                    lpx.compare(ctx, ts, tt, 1)
    elif inst[0] == "stock":
        gap = inst[1]
        paths = {1: ["P", "S"], 19: ["S", "N"], 2: ["Q", "S", "N"]}
        for listed in itertools.product(({1: "in", 19: "out"}, None), ({1: "in", 2: "in"}, None),
                                        ({19: "out", 2: "out"}, None), ({19: "out", 2: "in"}, None)):
            switch = [p for p in listed if p]
            base = make(paths, {"S": switch} if switch else {}, 0)
            base["Jround"] = {"S": [(1, 19)]}
            for ts in problems.listings(base):
                for prep, res in ((1, 1), (0, 2)):
                    tt = problems.times(ts, {1: 0, 19: 3, 2: gap}, 2, prep=prep, headway=1, res=res)
                    lpx.compare(ctx, ts, tt, 3)
    elif inst[0] == "both ends":
        _, gap, single = inst
        base = make({1: ["P", "S"], 2: ["S", "P"]},
                    {"S": [{1: "in", 2: "out"}], "P": [{1: "out", 2: "in"}]}, not single)
        for ts in problems.listings(base):
            for res in (1, 2):
                for run in (2, 4):
                    tt = problems.times(ts, {1: 0, 2: gap}, run, headway=1, res=res)
                    for d_max in (1, 3, 5):
                        judge(ctx, ts, tt, d_max)
    else:
        _, three, tracks = inst
        paths = {1: three[0], 2: three[1], 3: three[2]}
        switch = [{j: x, jp: y} for j, jp in itertools.combinations(paths, 2) for x, y in combos(paths[j], paths[jp])]
        base = make(paths, {"S": switch}, tracks)
        for gaps in ((0, 2), (2, 0), (1, 3), (-1, -2)):
            for ts in problems.listings(base):
                tt = problems.times(ts, {1: 0, 2: gaps[0], 3: gaps[1]}, lambda j, s, s2: (3, 2, 1)[j - 1], headway=1)
                lpx.compare(ctx, ts, tt, 2)
    ctx.sample({"instance": inst})


def finish(ctx, tier):
    if not ctx.counts.get("accepted") or not ctx.counts.get("refused"):
        return "the exploration is vacuous"
