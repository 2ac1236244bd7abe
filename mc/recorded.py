"""Problems of the shipped data sets and the runs recorded with them."""
import glob
import os

from . import lpx, shipped

FILES = {"base": "cqm*_case[0123]_*", "Gt": "cqm*_case[45]_*", "1track": "cqm*_case6_*", "1track_Gt": "cqm*_case[789]_*"}


def problem(ctx, name, t_ref="16:00", d_max=40):
    """(train set, timetable, linear problem) of the undisturbed data set, by the code"""
    import data_formatting.data_formatting as df
    import helpers

    c, tr = shipped.case(ctx.repo, name), shipped.prepared(ctx.repo, name)
    with ctx.code("building the problem of the data set"):
        skip = df.get_skip_stations(tr)
        ts = helpers.make_train_set(tr, c.stations, c.table, skip)
        tt = helpers.make_timetable(tr, c.stations, skip, t_ref)
        prob = lpx.rs().create_linear_problem(ts, tt, d_max, cat="Integer")
    return ts, tt, prob


def runs(ctx, name):
    """every recorded run of the constrained solver for the data set"""
    import pandas as pd

    for path in sorted(glob.glob(os.path.join(ctx.repo, "solutions_quantum", FILES[name]))):
        for run in pd.read_pickle(path).values():
            yield os.path.basename(path), run


def sample(run, prob):
    """values of the variables of the problem in a recorded run (0 for new variables)"""
    s = {k: int(round(v)) for k, v in run["sample"].items()}
    return {v.name: s.get(v.name, 0) for v in prob.variables()}


# the study of the network: case -> (data set, {train: delay in minutes})
_LATE = dict(zip((94766, 26013, 5312, 40518, 34319, 14006, 40150, 41004, 45101, 4500, 49317, 64359, 44862, 73000),
                 (30, 12, 18, 5, 30, 23, 3, 21, 35, 10, 25, 7, 5, 16)))
STUDY = {
    0: ("base", {}),
    1: ("base", {14006: 12}),
    2: ("base", dict(zip((94766, 40518, 41004, 44862, 4120), (15, 12, 13, 6, 21)))),
    3: ("base", _LATE),
    4: ("Gt", {}),
    5: ("Gt", _LATE),
    6: ("1track", _LATE),
    7: ("1track_Gt", _LATE),
    8: ("1track_Gt", dict(zip((94766, 26013, 42009, 5312, 34319, 14006, 94611, 40150, 41004, 45101, 94113, 40673, 54101),
                              (28, 10, 12, 7, 30, 13, 3, 10, 28, 30, 11, 5, 7)))),
    9: ("1track_Gt", dict(zip((94766, 26013, 42009, 5312, 40518, 34319, 14006, 40150, 41004, 45101, 4500, 49317, 64359,
                               44862, 73000), (30, 11, 15, 19, 5, 28, 21, 4, 21, 34, 11, 25, 7, 5, 5)))),
}


def disturbed(ts, tt, delays):
    """the timetable with the first departure of each listed train delayed; trains that
    are not in the data set are left out"""
    out = dict(tt)
    out["initial_conditions"] = dict(tt["initial_conditions"])
    for j, d in delays.items():
        if j in ts["J"]:
            out["initial_conditions"][f"{j}_{ts['Paths'][j][0]}"] += d
    return out


def schedules(ctx, case):
    """(name, published schedule) recorded for the case"""
    import pandas as pd

    base = os.path.join(ctx.repo, "solutions_quantum", "data4diagrams")
    yield "PULP_CBC_CMD", pd.read_pickle(os.path.join(base, f"PULP_CBC_CMD_case{case}_Integer.pkl"))
    for i, s in pd.read_pickle(os.path.join(base, f"cqm5_case{case}_Integer.pkl")).items():
        yield f"cqm5 {i}", s


# the generic problems of the line Katowice - Gliwice: disturbances of the cases 1 and 2, and of case 3
_ALL = object()
_GENERIC = [
    {}, {4602: 2}, {6401: 3, 4604: 13}, {1: 2, 3: 2, 5: 7}, {2: 2, 4: 2, 6405: 3, 6407: 3},
    {1: 5, 2: 3, 3: 7, 4: 2, 5: 1, 6401: 2}, {3: 7, 4: 2, 5: 1, 23: 6, 1: 6, 6407: 2, 101: 4, 4602: 7},
    {1: 5, 11: 3, 21: 3, 25: 2, 2: 4, 4: 6, 6: 6, 8: 3, 10: 3, 22: 6, 24: 1},
    {1: 3, 2: 5, 3: 7, 4: 25, 5: 8, 6: 12, 7: 17, 23: 4, 25: 3, 24: 8, 10: 4, 6401: 3, 6403: 7, 101: 8},
    {2: 3, 4602: 1, 4: 10, 102: 2, 6: 15, 8: 7, 4604: 4, 10: 1, 12: 7, 1: 10, 101: 8, 3: 2, 6401: 6, 5: 15, 7: 1, 103: 30,
     9: 7, 6403: 8},
    (_ALL, 3), (_ALL, 10)]
_BLOCKED = [
    {}, {2: 18}, {2: 36, 4602: 20}, {101: 18, 1: 29, 3: 25}, {101: 18, 1: 29, 3: 25, 5: 15, 2: 18},
    {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12},
    {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12, 103: 15, 10: 50, 4606: 30},
    {2: 50, 4602: 32, 4: 10, 102: 5, 1: 12, 101: 10},
    {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 3: 20},
    {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 10: 25},
    {1: 29, 2: 36, 4602: 20, 9: 12, 4606: 30, 102: 45, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 4604: 10, 10: 25},
    {2: 92, 4602: 70, 4: 72, 102: 46, 101: 45, 6401: 33, 6403: 20, 5: 25, 103: 28, 3: 59, 4604: 12, 10: 25}]
GENERIC = {1: "KO_GLC", 2: "KO_RCB", 3: "KO_RCB_v2"}


def generic(case, trains):
    """the disturbances of a generic case: [{train: delay}]"""
    out = _BLOCKED if case == 3 else _GENERIC
    return [{j: j % d[1] for j in trains} if isinstance(d, tuple) else dict(d) for d in out]
