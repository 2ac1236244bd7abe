"""The data files of the repository, read without its code."""
import csv
import math
import os

DATASETS = {
    "base": ("trains_schedules.csv", "important_stations.npz"),
    "Gt": ("trains_schedules_Gt.csv", "important_stations_Gt.npz"),
    "1track": ("trains_schedules_1track.csv", "important_stations.npz"),
    "1track_Gt": ("trains_schedules_1track_Gt.csv", "important_stations_Gt.npz"),
    "KO_GLC": ("KO_GLC/trains_schedules_KO_GLC.csv", "KO_GLC/important_stations_KO_GLC.npz"),
    "KO_RCB": ("KO_GLC/trains_schedules_KO_RCB_ZZ_GLC.csv", "KO_GLC/important_stations_KO_GLC_R.npz"),
    "KO_RCB_v2": ("KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv", "KO_GLC/important_stations_KO_GLC_R.npz"),
}
_cache = {}


def csv_path(repo, name):
    return os.path.join(repo, "data", DATASETS[name][0])


def read_trains(path):
    """[{number, category, name, origin, destination, rows: [(block, {column: text})]}]"""
    with open(path, encoding="utf8", errors="replace", newline="") as f:
        rows = [r for r in csv.reader(f, delimiter=";") if r]
    columns = rows[0][1:]
    trains, i = [], 1
    while i < len(rows):
        if rows[i][0] != "####":
            i += 1
            continue
        category, number, name, origin = (rows[i + k][0] for k in (1, 2, 3, 4))
        i += 5
        body = []
        while not rows[i][0].startswith(("to", "te")):
            body.append((rows[i][0], {c: v for c, v in zip(columns, rows[i][1:]) if v != ""}))
            i += 1
        trains.append({"number": int(number), "category": category, "name": name,
                       "origin": origin, "destination": rows[i][0], "rows": body})
        i += 1
    return trains


def _time(x):
    """running time of a cell; X marks a direction that is not used"""
    return None if x == "X" else float(x)


def network(repo):
    """(table as the code reads it, {frozenset(a, b): (a, b, times, set of switches)})"""
    if "net" not in _cache:
        import pandas as pd

        table = pd.read_excel(os.path.join(repo, "data", "network_paths.ods"), engine="odf")
        rows = {}
        for _, r in table.iterrows():
            sw = r["switches"]
            if isinstance(sw, float) and math.isnan(sw):
                sw = set()
            else:
                # a pair such as 47,53 is read as the number 47.53
                sw = {int(x) for x in str(sw).replace(".", ",").split(",") if x.strip()}
            rows[frozenset((r["previous_block"], r["next_block"]))] = (
                r["previous_block"], r["next_block"],
                {("IC", True): _time(r["time_inter_city_A-B"]), ("R", True): _time(r["time_regional_train_A-B"]),
                 ("IC", False): _time(r["time_inter_city_B-A"]), ("R", False): _time(r["time_regional_train_B-A"])},
                sw)
        _cache["net"] = (table, rows)
    return _cache["net"]


def stations(repo, name):
    import numpy as np

    return np.load(os.path.join(repo, "data", DATASETS[name][1]), allow_pickle=True)["arr_0"][()]


class Case:
    """one data set in the terms of the reference model"""

    def __init__(self, repo, name):
        self.name = name
        self.trains = read_trains(csv_path(repo, name))
        self.table, self.rows = network(repo)
        self.stations = stations(repo, name)
        self.station_of = {b: s for s, bs in self.stations.items() for b in bs}
        self.routes = {t["number"]: [b for b, _ in t["rows"]] for t in self.trains}
        self.cells = {t["number"]: [c for _, c in t["rows"]] for t in self.trains}

    def joined(self, a, b):
        return frozenset((a, b)) in self.rows

    def time(self, a, b, speed):
        pa, _, times, _ = self.rows[frozenset((a, b))]
        return times[(speed, pa == a)]

    def switches(self, a, b):
        return self.rows[frozenset((a, b))][3]

    def leave_times(self, j):
        """running time of every block of the train (0 for the last one)"""
        r, c = self.routes[j], self.cells[j]
        return [self.time(r[i], r[i + 1], c[i]["speed"]) for i in range(len(r) - 1)] + [0.0]

    def turnarounds(self, j):
        return [float(c.get("Turnaround_time_minutes", 0)) for c in self.cells[j]]


def case(repo, name):
    if name not in _cache:
        _cache[name] = Case(repo, name)
    return _cache[name]


def prepared(repo, name):
    """the timetables as the code prepares them (cached per process)"""
    key = ("prepared", name)
    if key not in _cache:
        import pandas as pd
        import data_formatting.data_formatting as df

        c = case(repo, name)
        data = pd.read_csv(csv_path(repo, name), sep=";", engine="python")
        _cache[key] = df.update_all_timetables(df.timetable_to_train_dict(data), c.table, c.stations)
    return _cache[key]
