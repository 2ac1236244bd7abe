"""C14: following trains keep their headway, exactly."""
import itertools

from mc import lpx, problems

PROPERTY = "C14"
BOUND = {
    "quick": "every delay vector of: two trains on one line track, planned departures apart by -7..7, both headways from "
             "0..6, d_max 1, 3, 6, both listings; two trains over two sections and on parallel tracks; three trains "
             "with planned departures 0, 1, 3, all headways from 1, 2, 4, in one or two groups, d_max 3, all 6 listings; "
             "half-minute delays for continuous delays",
    "thorough": "as quick with d_max 9 for two trains and 5 for three",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems"]


def instances(tier):
    hs = range(7)
    for gap in range(-7, 8):
        for h12, h21 in itertools.product(hs, repeat=2):
            yield ("two", gap, h12, h21)
    for gap in (-2, 0, 1, 4):
        for track in (0, 1):
            for h in itertools.product((1, 3), repeat=4):
                yield ("sections", gap, track, h)
    for e in itertools.product((0, 1, 3), repeat=2):
        for h in itertools.product((1, 2, 4), repeat=6):
            yield ("three", e, h)


def examine(inst, ctx):
    if inst[0] == "two":
        _, gap, h12, h21 = inst
        paths = {1: ["A", "B"], 2: ["A", "B"]}
        h = {(1, 2): h12, (2, 1): h21}
        for listing in ([1, 2], [2, 1]):
            ts = problems.sets(paths, Jd={"A": {"B": [listing]}})
            tt = problems.times(ts, {1: 0, 2: gap}, 3, headway=lambda j, jp, s, s2: h[(j, jp)])
            for d_max in (1, 3, 6, 9) if ctx.tier == "thorough" else (1, 3, 6):
                lpx.compare(ctx, ts, tt, d_max)
            lpx.compare(ctx, ts, tt, 3, cat="Continuous", step=0.5)
            # the last departure counted as well
            ts["skip_station"] = {}
            lpx.compare(ctx, ts, tt, 3)
    elif inst[0] == "sections":
        _, gap, track, h = inst
        paths = {1: ["A", "B", "C"], 2: ["A", "B", "C"]}
        hd = dict(zip([(1, 2, "A"), (2, 1, "A"), (1, 2, "B"), (2, 1, "B")], h))
        tracks = {(2, "B", "C"): track}
        ts = problems.sets(paths, Jd=problems.lines(paths, tracks))
        for ts in problems.listings(ts):
            tt = problems.times(ts, {1: 0, 2: gap}, lambda j, s, s2: 2 + j, headway=lambda j, jp, s, s2: hd[(j, jp, s)])
            lpx.compare(ctx, ts, tt, 4)
    else:
        _, e, h = inst
        paths = {j: ["A", "B"] for j in (1, 2, 3)}
        hd = dict(zip(itertools.permutations((1, 2, 3), 2), h))
        for order in itertools.permutations((1, 2, 3)):
            for groups in ([list(order)], [list(order[:2]), [order[2]]]):
                ts = problems.sets(paths, Jd={"A": {"B": groups}})
                tt = problems.times(ts, {1: 0, 2: e[0], 3: e[1]}, 3, headway=lambda j, jp, s, s2: hd[(j, jp)])
                lpx.compare(ctx, ts, tt, 5 if ctx.tier == "thorough" else 3)
    ctx.sample({"instance": inst})


def finish(ctx, tier):
    if not ctx.counts.get("accepted") or not ctx.counts.get("refused"):
        return "the exploration is vacuous"
