"""C15: head-on trains never share a single track, and no more is excluded."""
import itertools

from mc import lpx, problems

PROPERTY = "C15"
BOUND = {
    "quick": "every delay vector of: two head-on trains, planned departures apart by -8..8, running times 1..6, "
             "d_max 1, 3, 6, both listings, with and without common rolling stock, and with stock that each shares with a "
             "third and fourth train; three trains on one section (two "
             "against one) with headways; two trains over two sections, all listings; half-minute delays",
    "thorough": "as quick with d_max 10 for two trains",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems"]


def instances(tier):
    runs = range(1, 7)
    for gap in range(-8, 9):
        for a, b in itertools.product(runs, repeat=2):
            yield ("two", gap, a, b)
    for gap in range(-6, 12):
        for a, b in itertools.product((1, 3), repeat=2):
            yield ("stock", gap, a, b)
    for gap in range(-6, 7):
        for a, b in itertools.product((1, 3), repeat=2):
            for kinds in itertools.product(range(3), repeat=2):
                yield ("stocks", gap, a, b, kinds)
    for e in itertools.product((-3, 0, 2), (0, 2, 5)):
        for runs3 in itertools.product((1, 3), repeat=3):
            yield ("three", e, runs3)
    for gap in range(-8, 9, 2):
        for t in itertools.product((1, 3), repeat=4):
            yield ("sections", gap, t)


def examine(inst, ctx):
    if inst[0] == "two":
        _, gap, a, b = inst
        paths = {1: ["A", "B"], 2: ["B", "A"]}
        run = {1: a, 2: b}
        for single in ({("A", "B"): [(1, 2)]}, {("B", "A"): [(2, 1)]}, {("A", "B"): [[1, 2]]}):
            ts = problems.sets(paths, Jd=problems.lines(paths), Josingle=single)
            tt = problems.times(ts, {1: 0, 2: gap}, lambda j, s, s2: run[j])
            for d_max in (1, 3, 6, 10) if ctx.tier == "thorough" else (1, 3, 6):
                lpx.compare(ctx, ts, tt, d_max)
            lpx.compare(ctx, ts, tt, 3, cat="Continuous", step=0.5)
    elif inst[0] == "stock":
        # 1 runs to B and comes back as 19: they never meet head-on; 2 does meet 1 and 19
        _, gap, a, b = inst
        paths = {1: ["A", "B"], 19: ["B", "A"], 2: ["B", "A"]}
        for single in ({("A", "B"): [(1, 19), (1, 2)]}, {("B", "A"): [(19, 1), (2, 1)]}):
            ts = problems.sets(paths, Jd=problems.lines(paths), Josingle=single, Jround={"B": [(1, 19)]})
            tt = problems.times(ts, {1: 0, 19: 1, 2: gap}, lambda j, s, s2: b if j == 19 else a, prep=1)
            lpx.compare(ctx, ts, tt, 5)
    elif inst[0] == "stocks":
        # each train may take its stock from another train, or leave it to one, that the other has nothing to do with
        _, gap, a, b, kinds = inst
        paths = {1: ["A", "B"], 2: ["B", "A"]}
        rounds = {}
        for n, kind in zip((1, 2), kinds):
            start, end = paths[n]
            if kind == 1:
                paths[10 + n] = [f"D{n}", start]
                rounds.setdefault(start, []).append((10 + n, n))
            elif kind == 2:
                paths[10 + n] = [end, f"D{n}"]
                rounds.setdefault(end, []).append((n, 10 + n))
        for single in ({("A", "B"): [(1, 2)]}, {("B", "A"): [(2, 1)]}):
            ts = problems.sets(paths, Jd=problems.lines(paths), Josingle=single, Jround=rounds)
            first = {j: {1: 0, 2: gap}.get(j, -3 if kinds[j % 10 - 1] == 1 else 12) for j in paths}
            tt = problems.times(ts, first, lambda j, s, s2: {1: a, 2: b}.get(j, 1), prep=1)
            lpx.compare(ctx, ts, tt, 3)
    elif inst[0] == "three":
        _, e, runs = inst
        paths = {1: ["A", "B"], 2: ["B", "A"], 3: ["B", "A"]}
        for order in itertools.permutations([(1, 2), (1, 3)]):
            for flip in (0, 1):
                single = {("A", "B"): list(order)} if not flip else {("B", "A"): [(y, x) for x, y in order]}
                ts = problems.sets(paths, Jd=problems.lines(paths), Josingle=single)
                tt = problems.times(ts, {1: 0, 2: e[0], 3: e[1]}, lambda j, s, s2: runs[j - 1], headway=2)
                lpx.compare(ctx, ts, tt, 4)
    else:
        _, gap, t = inst
        paths = {1: ["A", "B", "C"], 2: ["C", "B", "A"]}
        run = {(1, "A"): t[0], (1, "B"): t[1], (2, "C"): t[2], (2, "B"): t[3]}
        for f1, f2 in itertools.product((0, 1), repeat=2):
            single = {}
            single[("A", "B") if not f1 else ("B", "A")] = [(1, 2) if not f1 else (2, 1)]
            single[("B", "C") if not f2 else ("C", "B")] = [(1, 2) if not f2 else (2, 1)]
            ts = problems.sets(paths, Jd=problems.lines(paths), Josingle=single)
            tt = problems.times(ts, {1: 0, 2: gap}, lambda j, s, s2: run[(j, s)])
            lpx.compare(ctx, ts, tt, 4)
    ctx.sample({"instance": inst})


def finish(ctx, tier):
    if not ctx.counts.get("accepted") or not ctx.counts.get("refused"):
        return "the exploration is vacuous"
