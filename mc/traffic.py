"""The traffic problems of the shipped cases, derived from the files with the reference model only."""
import itertools
import math

from . import derive, problems, ref_data as ref, shipped


def rounded(exact, given):
    """the integer nearest to exact; at a half the value the code chose, if it is a neighbour"""
    if abs(exact - math.floor(exact) - 0.5) < 1e-6:
        if given is not None and ref.is_rounding(float(given), exact):
            return float(given)
    return float(math.floor(exact + 0.5))


def problem(repo, name, t_ref, code_tau=None):
    """(train set, timetable) of a data set; code_tau settles the rounding of exact halves"""
    c = shipped.case(repo, name)
    so = c.station_of
    ts = derive.train_sets(c, c.routes)
    given = code_tau or {}
    tau = {"pass": {}, "stop": {}, "prep": {}, "headway": {}, "res": 1}
    first, schedule = {}, {}
    for j, route in c.routes.items():
        leave, turn = c.leave_times(j), c.turnarounds(j)
        for (s, s2), t in ref.running_times(route, leave, so).items():
            k = f"{j}_{s}_{s2}"
            tau["pass"][k] = rounded(t, given.get("pass", {}).get(k))
        stay, prep = ref.stays(route, leave, turn, so)
        for s, t in stay.items():
            k = f"{j}_{s}"
            tau["stop"][k] = rounded(t, given.get("stop", {}).get(k))
        for s, t in prep.items():
            tau["prep"][f"{j}_{s}"] = t
        seen = False
        for b, cell in zip(route, c.cells[j]):
            if b not in so:
                continue
            k = f"{j}_{so[b]}"
            if cell.get("Dep"):
                schedule[k] = ref.minutes(t_ref, cell["Dep"])
            if not seen:
                v = cell.get("Dep") or cell.get("Approx_enter")
                first[k] = ref.minutes(t_ref, v) if v else 0
                seen = True
    for s in ts["Jd"]:
        for s2 in ts["Jd"][s]:
            for g in ts["Jd"][s][s2]:
                for j, jp in itertools.permutations(g, 2):
                    blocks = ref.between(c.routes[j], s, s2, so)
                    t1, t2 = (dict(zip(c.routes[x], c.leave_times(x))) for x in (j, jp))
                    k = f"{j}_{jp}_{s}_{s2}"
                    exact = ref.headway([t1[b] for b in blocks], [t2[b] for b in blocks], ref.blocks_ahead(s, s2))
                    tau["headway"][k] = rounded(exact, given.get("headway", {}).get(k))
    return ts, {"tau": tau, "initial_conditions": first, "schedule": schedule, "penalty_weights": {}}


def delayed(ts, tt, delays):
    out = dict(tt)
    out["initial_conditions"] = dict(tt["initial_conditions"])
    for j, d in delays.items():
        out["initial_conditions"][f"{j}_{ts['Paths'][j][0]}"] += d
    return out


def wisla():
    """the single-track line with six trains that is given in its script"""
    there, back = [1, 3, 5, 10], [10, 5, 3, 1]
    paths = {"Ks1": there, "Ks3": there, "Ic1": there, "Ks2": back, "Ks4": back, "Ic2": back}
    run = {(1, 3): (4, 4), (3, 5): (6, 4), (5, 10): (6, 5)}
    ts = problems.sets(paths, Jd=problems.lines(paths), Jround={10: [("Ic1", "Ic2")]}, Josingle={
        k: list(itertools.product(("Ks1", "Ks3", "Ic1"), ("Ks2", "Ks4", "Ic2"))) for k in run})
    tt = problems.times(ts, {"Ks1": 0, "Ks3": 60, "Ic1": 30, "Ks2": 40, "Ks4": 100, "Ic2": 95},
                        lambda j, s, s2: run[tuple(sorted((s, s2)))][j.startswith("Ic")], stop=1, prep=20, headway=2,
                        schedule={"Ks1_1": 0, "Ks3_1": 60, "Ic1_1": 10, "Ks2_10": 40, "Ks4_10": 100, "Ic2_10": 95})
    return ts, tt
