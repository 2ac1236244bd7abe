"""C16: a station track holds one train at a time, and the order is kept from the line."""
import itertools

from mc import lpx, problems

PROPERTY = "C16"
# role of a (stock of) train on the track of S: the trains it consists of
ROLES = {
    "through P": lambda n: {n: ["P", "S", "N"]},
    "through P to M": lambda n: {n: ["P", "S", "M"]},
    "through Q": lambda n: {n: ["Q", "S", "N"]},
    "from P to the depot": lambda n: {n: ["P", "S", "S(D)"]},
    "ends from P": lambda n: {n: ["P", "S"]},
    "ends from P, counted": lambda n: {n: ["P", "S"]},
    "ends from Q": lambda n: {n: ["Q", "S"]},
    "starts": lambda n: {n: ["S", "N"]},
    "from P renumbered": lambda n: {n: ["P", "S"], 10 * n + 9: ["S", "N"]},
    "from Q renumbered": lambda n: {n: ["Q", "S"], 10 * n + 9: ["S", "M"]},
}
SMALL = ("through P", "through Q", "ends from P", "starts", "from P renumbered")
RUNS = ((2, 2), (1, 3), (3, 1))
BOUND = {
    "quick": "every delay vector (d_max 3, and 1 or 5) of all ordered pairs of 10 ways to use a track (through, ending "
             "counted or not, starting, renumbered; from the same line track, a parallel one or another station), entry "
             "switches common or not, or those of both ends, switching time added or not, planned departures apart by -4..7, 3 patterns of running "
             "times, 2 headways, 3 listings; all triples of 5 ways with d_max 2 and 6 patterns of departures, all listings",
    "thorough": "as quick with planned departures apart by -6..9 and d_max 4 instead of 3",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems",
               "every train that travels is listed on its line (as prepared by the data part)"]


def instances(tier):
    gaps = range(-6, 10) if tier == "thorough" else range(-4, 8)
    for a, b in itertools.product(ROLES, repeat=2):
        for tracks in (0, 1):
            for switch in (0, 1, 2):
                if (tracks or switch) and "starts" in (a, b):
                    continue
                for add in (0, 1):
                    yield ("two", a, b, tracks, switch, add, gaps[0], gaps[-1])
    for roles in itertools.product(SMALL, repeat=3):
        for tracks in (0, 1):
            for switch in (0, 1):
                yield ("three", roles, tracks, switch)


def make(roles, tracks, switch):
    paths, skip, rounds, heads = {}, {}, [], []
    for n, r in zip((1, 2, 3), roles):
        p = ROLES[r](n)
        heads.append(n)
        paths.update(p)
        for j, x in p.items():
            if "counted" not in r:
                skip[j] = x[-1]
        if len(p) == 2:
            rounds.append((n, 10 * n + 9))
    enter = [n for n in heads if len(paths[n]) > 1 and paths[n][-1] != "N" or paths[n][0] in "PQ"]
    enter = [n for n in enter if paths[n][0] in "PQ"]
    parallel = {(n, paths[n][0], "S"): 1 for n in enter[1:2]} if tracks else {}
    pairs = list(itertools.combinations(enter, 2))
    switches = [{a: "in", b: "in"} for a, b in pairs]
    if switch == 2:
        # the ways out have common switches, too
        switches = [{a: "out", b: "out"} for a, b in pairs if len(paths[a]) == len(paths[b]) == 3] + switches
    ts = problems.sets(
        paths, skip=skip, Jd=problems.lines(paths, parallel), Jround={"S": rounds} if rounds else {},
        Jtrack={"S": [list(paths)]},
        Jswitch={"S": switches} if switch else {})
    return ts, heads


def examine(inst, ctx):
    if inst[0] == "two":
        _, a, b, tracks, switch, add, lo, hi = inst
        base, heads = make((a, b), tracks, switch)
        for gap in range(lo, hi + 1):
            for runs in RUNS:
                for h in (1, 2):
                    first = {j: (gap if str(j)[0] == "2" else 0) + (3 if j > 9 else 0) for j in base["Paths"]}
                    for ts, places in zip(problems.listings(base), (["S"], ["N", "S"], ["S", "N"])):
                        if add:
                            ts["add_swithes_at_s"] = places
                        tt = problems.times(ts, first, lambda j, s, s2: runs[int(str(j)[0]) - 1], headway=h, prep=2, res=1)
                        lpx.compare(ctx, ts, tt, 4 if ctx.tier == "thorough" else 3)
                        lpx.compare(ctx, ts, tt, 5 if len([1 for _ in ts["J"]]) > 2 else 1)
    else:
        _, roles, tracks, switch = inst
        base, heads = make(roles, tracks, switch)
        for gaps in ((0, 2), (2, 0), (1, 3), (3, 1), (0, 0), (-2, 2)):
            first = {}
            for j in base["Paths"]:
                n = int(str(j)[0])
                first[j] = (0 if n == 1 else gaps[n - 2]) + (3 if j > 9 else 0)
            for ts in problems.listings(base):
                tt = problems.times(ts, first, lambda j, s, s2: 1 + int(str(j)[0]) % 2, headway=1, prep=2, res=1)
                lpx.compare(ctx, ts, tt, 2)
    ctx.sample({"instance": inst})


def finish(ctx, tier):
    if not ctx.counts.get("accepted") or not ctx.counts.get("refused"):
        return "the exploration is vacuous"
