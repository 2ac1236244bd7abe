"""C26: the published timetable is the solution, at the right clock times."""
import datetime
import itertools

from mc import lpx, problems, recorded, ref_lp, shipped

PROPERTY = "C26"
REFERENCE = ((2020, 1, 1, 16, 0), (2020, 2, 28, 23, 50), (2021, 12, 31, 23, 59))
RUNS = ((2, 2), (1.4, 3.6), (2.5, 61), (1440, 0.4))
NAMES = ((1, 11, ("A", "B", "C")), (94766, 4120, ("KO", "KO(STM)", "KTC-CB")), ("Ks1", "s1", (10, 5, 1)))
FIELDS = {"arrive", "conflicted_arrive", "departure", "conflicted_departure", "secondary delay", "impact_to_objective"}
BOUND = {
    "quick": "two trains over three stations in the same or opposite direction and one train over two: every delay vector "
             "with d_max 2, and delays 0, d_max with d_max 5, every pattern of counted last stations and of weighted departures "
             "(none, some, all), no schedule or one, 4 pairs of running times (fractional and over a day), 3 reference times "
             "(over midnight and the end of a month or year), 3 sets of names, first departures before the reference time, "
             "the solution held by the model and given from outside; trains that meet no condition at all; the schedules "
             "recorded with 10 shipped cases",
    "thorough": "as quick with every delay vector with d_max 5",
}
ASSUMPTIONS = ["delays are whole minutes, held as integers or floats",
               "a running time with half a minute may be rounded either way"]


def instances(tier):
    for n, same, skip, weights, sched in itertools.product(range(len(NAMES)), (True, False), range(8), range(3), (False, True)):
        for run in range(len(RUNS)):
            yield ("small", n, same, skip, weights, sched, run)
    for case in range(10):
        yield ("recorded", case)


def publish(ctx, prob, tt, ts, taus, d_max, t_ref, data):
    import helpers

    more = () if data is None else (data,)
    with ctx.code("publishing the timetable"):
        return helpers.print_optimisation_results(prob, tt, ts, taus, ts["skip_station"], d_max, t_ref, *more)


def minutes(x):
    """[clock times in minutes after the reference time] a value may be published as"""
    low = int(x // 1)
    if abs(x - low) < 1e-9:
        return {low}
    if abs(x - low - 0.5) < 1e-9:
        return {low, low + 1}
    return {int(round(x))}


def judge(ctx, got, ts, tt, rules, taus, d, d_max, t_ref):
    at = dict(zip(rules.keys, d))
    weights = tt["penalty_weights"]
    if set(got) != set(ts["J"]):
        ctx.fail(f"trains {sorted(map(str, got))} published instead of {ts['J']}")
    for j in ts["J"]:
        path = ts["Paths"][j]
        if list(got[j]) != path:
            ctx.fail(f"train {j}: stations {list(got[j])} published, itinerary {path}")
        for i, s in enumerate(path):
            ctx.step()
            g = got[j][s]
            what = f"train {j} at {s}, delays {at}, reference time {t_ref}"
            want = {}
            if i:
                prev = path[i - 1]
                run = taus["pass"][f"{j}_{prev}_{s}"]
                e = rules.earliest(j, prev)
                want["arrive"] = {int(e + at[(j, prev)]) + m for m in minutes(run)}
                want["conflicted_arrive"] = {int(e) + m for m in minutes(run)}
            if (j, s) in at:
                e = rules.earliest(j, s)
                want["departure"] = {int(e + at[(j, s)])}
                want["conflicted_departure"] = {int(e)}
            else:
                ctx.count("uncounted")
            for k, options in want.items():
                if k not in g or g[k] not in [t_ref + datetime.timedelta(minutes=m) for m in options]:
                    ctx.fail(f"{k} is {g.get(k)}, expected {sorted(options)} minutes after the reference time; {what}")
            clocks = {k for k in g if "arrive" in str(k) or "departure" in str(k)}
            if clocks != set(want):
                ctx.fail(f"{sorted(clocks)} published instead of {sorted(want)}; {what}")
            if (j, s) in at:
                if g.get("secondary delay") != at[(j, s)]:
                    ctx.fail(f"delay {g.get('secondary delay')} published; {what}")
                share = weights.get(f"{j}_{s}", 0) * at[(j, s)] / d_max
                if "impact_to_objective" not in g or abs(g["impact_to_objective"] - share) > 1e-9:
                    ctx.fail(f"share {g.get('impact_to_objective')} published instead of {share}; {what}")
            ctx.outcome(tuple(sorted((k, str(v)) for k, v in g.items())))


def examine(inst, ctx):
    if inst[0] == "recorded":
        replay(ctx, inst[1])
        return
    _, n, same, skip, weights, sched, run = inst
    j, jp, (a, b, c) = NAMES[n]
    third = "T" if n == 2 else 7
    paths = {j: [a, b, c], jp: [a, b, c] if same else [c, b, a], third: [a, b]}
    skipped = {t: paths[t][-1] for k, t in enumerate(paths) if not skip >> k & 1}
    if same:
        ts = problems.sets(paths, skip=skipped, Jd=problems.lines(paths, {(third, a, b): 1}), Jtrack={b: [[j, jp]]})
    else:
        ts = problems.sets(paths, skip=skipped, Jd=problems.lines(paths, {(third, a, b): 1}),
                           Josingle={(a, b): [[j, jp]], (b, c): [[j, jp]]})
    r1, r2 = RUNS[run]
    exact = lambda t, s, s2: r1 if b in (s, s2) and a in (s, s2) else r2
    counted = [(t, s) for t, p in paths.items() for s in p if skipped.get(t) != s]
    w = {f"{t}_{s}": 0.5 + i for i, (t, s) in enumerate(counted) if weights == 2 or weights == 1 and i % 3 == 1 and t != third}
    schedule = {f"{j}_{b}": 9, f"{jp}_{b}": 2, f"{third}_{a}": 4} if sched else None
    tt = problems.times(ts, {j: 3, jp: -2, third: 0}, lambda t, s, s2: max(1, round(exact(t, s, s2))), schedule=schedule, weights=w)
    taus = dict(tt["tau"])
    taus["pass"] = {f"{t}_{s}_{s2}": exact(t, s, s2) for t, p in paths.items() for s, s2 in zip(p, p[1:])}
    k = 0
    for d_max in (2, 5):
        prob = lpx.build(ctx, ts, tt, d_max)
        rules = ref_lp.Rules(ts, tt, d_max)
        variables = {v.name: v for v in prob.variables()}
        names = [lpx.delay_name(*key) for key in rules.keys]
        # a departure that meets no condition and is not weighted is not delayed
        free = [name not in variables for name in names]
        ctx.count("without_conditions", sum(free))
        values = range(d_max + 1) if d_max == 2 and len(names) < 6 or ctx.tier == "thorough" else (0, d_max)
        for d in itertools.product(*((0,) if f else values for f in free)):
            t_ref = datetime.datetime(*REFERENCE[k % len(REFERENCE)])
            k += 1
            for outside in (False, True):
                ctx.state()
                ctx.trace()
                data = None
                if outside:
                    data = {v: 0 for v in variables}
                    data.update({name: (float(x) if k % 2 else x) for name, x in zip(names, d) if name in variables})
                    for v in variables.values():
                        v.varValue = d_max + 7  # must not be used
                else:
                    for name, v in variables.items():
                        v.varValue = float(d[names.index(name)]) if name in names else 0.0
                got = publish(ctx, prob, tt, ts, taus, d_max, t_ref, data)
                judge(ctx, got, ts, tt, rules, taus, d, d_max, t_ref)
    ctx.sample(repr(inst))


# recorded before the turnaround time was added to the stay of this train at KO
REPAIRED = {(8, 94113)}


def replay(ctx, case):
    """the delays of every recorded solution, published by the code of today, against the
    schedule published then"""
    import helpers

    name, delays = recorded.STUDY[case]
    ts, tt, _ = recorded.problem(ctx, name)
    tt = recorded.disturbed(ts, tt, delays)
    prob = lpx.build(ctx, ts, tt, 40)
    with ctx.code("making the running times"):
        taus = helpers.make_taus(shipped.prepared(ctx.repo, name), shipped.case(ctx.repo, name).stations, r=0)
    for what, rec in recorded.schedules(ctx, case):
        ctx.state()
        ctx.trace()
        ctx.count("recorded_schedules")
        data = {v.name: 0 for v in prob.variables()}
        for j, stations in rec.items():
            for s, fields in stations.items():
                if "secondary delay" in fields:
                    data[lpx.delay_name(j, s)] = fields["secondary delay"]
        got = publish(ctx, prob, tt, ts, taus, 40, datetime.datetime(2020, 1, 1, 16, 0), data)
        ctx.same(set(got), set(rec), f"trains of case {case}")
        for j, stations in rec.items():
            if (case, j) in REPAIRED:
                continue
            ctx.same(list(got[j]), list(stations), f"stations of train {j} of case {case}")
            for s, fields in stations.items():
                ctx.step()
                for k, v in fields.items():
                    g = got[j][s].get(k)
                    if g != v and not (isinstance(v, float) and g is not None and abs(g - v) < 1e-9):
                        ctx.fail(f"case {case}, {what}, train {j} at {s}: {k} is {g}, recorded {v}")


def finish(ctx, tier):
    if ctx.counts.get("recorded_schedules", 0) < 60 or not ctx.counts.get("without_conditions"):
        return "the recorded schedules or the trains without conditions were not explored"
    return None
