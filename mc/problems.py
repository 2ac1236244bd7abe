"""Small dispatching problems, as the code takes them."""
import itertools


def sets(paths, skip=None, Jd=None, Josingle=None, Jround=None, Jtrack=None, Jswitch=None, **more):
    """a train set; without `skip` the last station of every train is not counted"""
    out = {
        "skip_station": {j: p[-1] for j, p in paths.items()} if skip is None else skip,
        "Paths": {j: list(p) for j, p in paths.items()},
        "J": list(paths),
        "Jd": Jd or {},
        "Josingle": Josingle or {},
        "Jround": Jround or {},
        "Jtrack": Jtrack or {},
        "Jswitch": Jswitch or {},
    }
    out.update(more)
    return out


def times(ts, first, run, stop=1, prep=2, headway=2, res=1, schedule=None, weights=None):
    """first: {train: earliest departure from its first station}; run, stop, prep,
    headway: a number or a function of the key parts.

    Unless a schedule is given, the earliest departures come about in three ways, by
    turns: from the initial condition alone, from an initial condition later than the
    scheduled time, and from a scheduled time later than the initial condition."""
    def of(x, *a):
        return x(*a) if callable(x) else x

    paths = ts["Paths"]
    tau = {"pass": {}, "stop": {}, "prep": {}, "headway": {}, "res": res}
    for j, p in paths.items():
        for s, s2 in zip(p, p[1:]):
            tau["pass"][f"{j}_{s}_{s2}"] = of(run, j, s, s2)
        for s in p[1:]:
            tau["stop"][f"{j}_{s}"] = of(stop, j, s)
        tau["prep"][f"{j}_{p[0]}"] = of(prep, j, p[0])
        # given for the first station as well, where it has no effect
        tau["stop"][f"{j}_{p[0]}"] = 4
    for s in ts["Jd"]:
        for s2 in ts["Jd"][s]:
            for g in ts["Jd"][s][s2]:
                for j, jp in itertools.permutations(g, 2):
                    tau["headway"][f"{j}_{jp}_{s}_{s2}"] = of(headway, j, jp, s, s2)
    initial = {f"{j}_{paths[j][0]}": t for j, t in first.items()}
    if schedule is None:
        schedule = {}
        for i, j in enumerate(sorted(first, key=str)):
            key = f"{j}_{paths[j][0]}"
            if i % 3 == 0:
                schedule[key] = first[j]
                initial[key] -= 5
            elif i % 3 == 1:
                schedule[key] = first[j] - 3
    return {"tau": tau, "initial_conditions": initial, "penalty_weights": weights or {}, "schedule": schedule}


def lines(paths, tracks=None):
    """complete listing of the trains per line track; tracks: {(train, s, s'): track}"""
    groups = {}
    for j, p in paths.items():
        for s, s2 in zip(p, p[1:]):
            t = (tracks or {}).get((j, s, s2), 0)
            groups.setdefault(s, {}).setdefault(s2, {}).setdefault(t, []).append(j)
    return {s: {s2: list(g.values()) for s2, g in v.items()} for s, v in groups.items()}


def listings(ts):
    """the problem listed forwards and backwards: trains, groups and pairs"""
    yield ts
    back = dict(ts)
    back["J"] = ts["J"][::-1]
    back["Paths"] = dict(reversed(list(ts["Paths"].items())))
    back["Jd"] = {s: {s2: [g[::-1] for g in reversed(v[s2])] for s2 in reversed(list(v))}
                  for s, v in reversed(list(ts["Jd"].items()))}
    back["Josingle"] = {(b, a): [(y, x) for x, y in reversed(v)] for (a, b), v in reversed(list(ts["Josingle"].items()))}
    back["Jround"] = {s: v[::-1] for s, v in reversed(list(ts["Jround"].items()))}
    back["Jtrack"] = {s: [g[::-1] for g in reversed(v)] for s, v in reversed(list(ts["Jtrack"].items()))}
    back["Jswitch"] = {s: [dict(reversed(list(p.items()))) for p in reversed(v)]
                       for s, v in reversed(list(ts["Jswitch"].items()))}
    yield back
    # the lines as they are, the tracks turned around
    mixed = dict(ts)
    for k in ("Jtrack", "Josingle"):
        mixed[k] = back[k]
    yield mixed
