"""C18: no train runs ahead of its schedule, its running times or its stock."""
import itertools

from mc import lpx, problems, ref_lp

PROPERTY = "C18"
PLAN = (None, -2, 4.5, 7)
BOUND = {
    "quick": "every delay vector of: one train over up to three stations with every pattern of scheduled times (none, "
             "before, at, after the reachable time), initial conditions at the first or also at a later station, running "
             "time 3, stops 0, 2, last station counted or not, d_max 1, 4, integer and continuous; chains of up to three "
             "trains of one stock with all patterns of initial and scheduled times, preparation times 0, 2, running times "
             "1, 3; trains with and without stock side by side; two stocks "
             "that change number at one station; the variables of every one of these problems",
    "thorough": "as quick with scheduled times 0, 1, 3, 5, 8 as well",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems"]


def instances(tier):
    for n in (2, 3):
        for plan in itertools.product(PLAN + ((0, 1, 3, 5, 8) if tier == "thorough" else ()), repeat=n):
            for later in (0, 1):
                for stops in itertools.product((0, 2), repeat=2):
                    yield ("one", n, plan, later, stops)
    for first in itertools.product((0, 2, 5), repeat=3):
        for prep in (0, 2):
            for run in (1, 3):
                for plan in itertools.product((None, 4), repeat=2):
                    yield ("chain", first, prep, run, plan)
    for d in (1, 3):
        for gap in range(-3, 9):
            yield ("beside", d, gap)
    for gaps in itertools.product((-1, 2, 5), repeat=3):
        yield ("two stocks", gaps)
    yield ("variables",)


def variables(ctx, ts, tt, d_max):
    """the delay variables the code makes for a train set"""
    rules = ref_lp.Rules(ts, tt, d_max)
    for cat in ("Integer", "Continuous"):
        with ctx.code("making the delay variables"):
            got = lpx.rs().delay_varibles(ts, d_max, cat)
        found = {(j, s): v for j, of in got.items() for s, v in of.items()}
        if set(found) != set(rules.keys):
            ctx.fail(f"delays of {sorted(found, key=str)} instead of {sorted(rules.keys, key=str)}; sets {ts}")
        for key, v in found.items():
            if v.cat != cat or (v.lowBound, v.upBound) != (0, d_max) or v.name != lpx.delay_name(*key):
                ctx.fail(f"the delay of {key} is {v.name}, {v.cat} in [{v.lowBound}, {v.upBound}]")


def judge(ctx, ts, tt, d_maxes=(1, 4)):
    for d_max in d_maxes:
        rules = ref_lp.Rules(ts, tt, d_max)
        for j, s in rules.keys:
            with ctx.code("earliest departure"):
                e = lpx.rs().earliest_dep_time(ts["Paths"], tt, j, s)
            if abs(e - rules.earliest(j, s)) > 1e-9:
                ctx.fail(f"earliest departure of {j} from {s}: {e} instead of {rules.earliest(j, s)}; times {tt}")
        lpx.compare(ctx, ts, tt, d_max, rules=rules)
        lpx.compare(ctx, ts, tt, d_max, cat="Continuous", step=0.5, rules=rules)
        variables(ctx, ts, tt, d_max)


def examine(inst, ctx):
    if inst[0] == "one":
        _, n, plan, later, stops = inst
        path = ["A", "B", "C"][:n]
        for skip in (None, {}, {2: "C"}):
            ts = problems.sets({1: path}, skip=skip)
            tt = problems.times(ts, {1: 0}, 3, stop=lambda j, s: stops["BC".index(s)],
                                schedule={f"1_{s}": t for s, t in zip(path, plan) if t is not None})
            if later:
                tt["initial_conditions"][f"1_{path[-1]}"] = 5
            judge(ctx, ts, tt)
            if all(t is None for t in plan):
                del tt["schedule"]
                judge(ctx, ts, tt)
    elif inst[0] == "chain":
        _, first, prep, run, plan = inst
        for n in (2, 3):
            numbers = (1, 19, 199)[:n]
            paths = {j: p for j, p in zip(numbers, (["A", "B"], ["B", "C"], ["C", "A"]))}
            rounds = {"B": [(1, 19)], "C": [(19, 199)]} if n == 3 else {"B": [(1, 19)]}
            for order in (numbers, numbers[::-1]):
                ts = problems.sets({j: paths[j] for j in order}, Jround=rounds, Jd=problems.lines(paths))
                tt = problems.times(ts, dict(zip(numbers, first)), lambda j, s, s2: run if j != 19 else 2, prep=prep,
                                    schedule={k: t for k, t in zip(("19_B", "1_A"), plan) if t is not None})
                judge(ctx, ts, tt, (2, 5) if n == 2 else (3,))
                ts["skip_station"] = {j: paths[j][-1] for j in numbers[-1:]}
                judge(ctx, ts, tt, (3,))
    elif inst[0] == "beside":
        _, d, gap = inst
        paths = {1: ["A", "B", "C"], 19: ["C", "B"], 2: ["A", "B", "C"]}
        ts = problems.sets(paths, Jround={"C": [(1, 19)]}, Jd=problems.lines(paths, {(2, "A", "B"): 1, (2, "B", "C"): 1}))
        tt = problems.times(ts, {1: 0, 19: gap, 2: 1}, 2, prep=3)
        judge(ctx, ts, tt, (d,))
    elif inst[0] == "two stocks":
        a, b, c = inst[1]
        paths = {1: ["A", "C"], 19: ["C", "A"], 2: ["B", "C"], 29: ["C", "B"]}
        for rounds in ([(1, 19), (2, 29)], [(2, 29), (1, 19)]):
            ts = problems.sets(paths, Jround={"C": rounds}, Jd=problems.lines(paths))
            tt = problems.times(ts, {1: 0, 19: a, 2: b, 29: c}, lambda j, s, s2: 1 + j % 2,
                                prep=lambda j, s: 1 + (j == 29))
            judge(ctx, ts, tt, (3,))
    else:
        for paths in ({1: ["A", "B"], 2: ["B", "A", "C"]}, {"Ks1": ["1", "10"], 11: ["10", "KO(STM)", "KO"]}):
            stations = sorted({s for p in paths.values() for s in p})
            js = list(paths)
            for skip in itertools.product([None] + stations, repeat=2):
                ts = problems.sets(paths, skip={j: s for j, s in zip(js, skip) if s})
                for rounds in ({}, {paths[js[0]][-1]: [(js[0], js[1])]}):
                    ts["Jround"] = rounds
                    for d_max in (1, 10):
                        ctx.state()
                        ctx.trace()
                        keys_only(ctx, ts, d_max)
    ctx.sample({"instance": inst})


def keys_only(ctx, ts, d_max):
    taken = {(a, s) for s, v in ts["Jround"].items() for a, _ in v}
    want = {(j, s) for j, p in ts["Paths"].items() for s in p if ts["skip_station"].get(j) != s} - taken
    with ctx.code("making the delay variables"):
        got = lpx.rs().delay_varibles(ts, d_max, "Integer")
    found = {(j, s) for j, of in got.items() for s in of}
    if found != want:
        ctx.fail(f"delays of {sorted(found, key=str)} instead of {sorted(want, key=str)}; sets {ts}")


def finish(ctx, tier):
    if not ctx.counts.get("accepted") or not ctx.counts.get("refused"):
        return "the exploration is vacuous"
