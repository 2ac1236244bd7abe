"""Small railway networks, all routes over them, and their timetable files."""
import io
import itertools

CELLS = ["speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes"]


class Net:
    """stations: {station: [blocks]}; edges: [(a, b, switches)], one row each of
    the network table; running times are given by `times`"""

    def __init__(self, name, stations, edges, times=None):
        self.name = name
        self.stations = stations
        self.edges = edges
        self.station_of = {b: s for s, bs in stations.items() for b in bs}
        self.row = {}
        self.next = {}
        for i, (a, b, sw) in enumerate(edges):
            self.row[frozenset((a, b))] = i
            self.next.setdefault(a, []).append(b)
            self.next.setdefault(b, []).append(a)
        # (IC A-B, R A-B, IC B-A, R B-A) per row, all different from each other
        self.times = times or [
            (0.73 + 0.1 * i, 1.34 + 0.1 * i, 5.26 + 0.1 * i, 7.67 + 0.1 * i) for i in range(len(edges))
        ]

    def joined(self, a, b):
        return frozenset((a, b)) in self.row

    def time(self, a, b, speed):
        """running time on leaving block a towards block b"""
        i = self.row[frozenset((a, b))]
        ic_ab, r_ab, ic_ba, r_ba = self.times[i]
        forward = self.edges[i][0] == a
        if speed == "IC":
            return ic_ab if forward else ic_ba
        return r_ab if forward else r_ba

    def switches(self, a, b):
        return self.edges[self.row[frozenset((a, b))]][2]

    def table(self):
        import pandas as pd

        return pd.DataFrame(
            {
                "previous_block": [e[0] for e in self.edges],
                "next_block": [e[1] for e in self.edges],
                "direction": ["X"] * len(self.edges),
                "default_A-B": ["Y"] * len(self.edges),
                "default_B-A": ["N"] * len(self.edges),
                "switches": [switch_cell(e[2]) for e in self.edges],
                "time_inter_city_A-B": [t[0] for t in self.times],
                "time_regional_train_A-B": [t[1] for t in self.times],
                "time_inter_city_B-A": [t[2] for t in self.times],
                "time_regional_train_B-A": [t[3] for t in self.times],
            }
        )

    def routes(self, min_blocks=2, max_blocks=8, min_stations=1):
        """all walks that use no block and no station twice"""
        out = []

        def grow(path, seen):
            if len(path) >= min_blocks and len(seen) >= min_stations:
                out.append(tuple(path))
            if len(path) == max_blocks:
                return
            for b in self.next[path[-1]]:
                s = self.station_of.get(b)
                if b in path or (s is not None and s in seen):
                    continue
                grow(path + [b], seen + [s] if s is not None else seen)

        for b in sorted(self.next):
            s = self.station_of.get(b)
            grow([b], [s] if s is not None else [])
        return out

    def itinerary(self, route):
        return [self.station_of[b] for b in route if b in self.station_of]


def switch_cell(sw):
    """a set of switch numbers in the notation of the network table: as given
    (already a cell) or comma separated"""
    if isinstance(sw, (set, frozenset, tuple, list)):
        return ",".join(str(x) for x in sw)
    return sw


def train(number, route, category="KS - Os", name="S1", origin="from X", destination="to Y",
          speed="R", cells=None):
    """cells: {row index: {column: value}}"""
    rows = []
    for i, b in enumerate(route):
        c = dict((cells or {}).get(i, {}))
        c.setdefault("speed", speed if isinstance(speed, str) else speed[i])
        rows.append((b, c))
    return {"number": number, "category": category, "name": name, "origin": origin,
            "destination": destination, "rows": rows}


def csv_text(trains):
    """the timetable file of the given trains, in the format of the shipped ones"""

    def line(cells):
        return ";".join(cells)

    def q(x):
        x = str(x)
        if '"' in x or ";" in x:
            return '"' + x.replace('"', '""') + '"'
        return x

    lines = [line([""] + CELLS)]
    for t in trains:
        for head in ("####", t["category"], t["number"], t["name"], t["origin"]):
            lines.append(line([q(head)] + [""] * len(CELLS)))
        for b, c in t["rows"]:
            lines.append(line([q(b)] + [q(c.get(k, "")) for k in CELLS]))
        lines.append(line([q(t["destination"])] + [""] * len(CELLS)))
    return "\n".join(lines) + "\n"


def read_csv(trains):
    import pandas as pd

    return pd.read_csv(io.StringIO(csv_text(trains)), sep=";", engine="python")


def load(trains, net, df):
    """timetables of the trains as the code of the repository prepares them"""
    return df.update_all_timetables(
        df.timetable_to_train_dict(read_csv(trains)), net.table(), net.stations
    )


def listing_orders(items):
    return itertools.permutations(items)


# ------------------------------------------------------------------ networks

def net_line():
    """three stations; A-B double track with a crossover, B-C single track and a
    direct joint of two station tracks; line blocks outside of the stations"""
    st = {"A": ['"A", "ST", 1, "(1)"', '"A", "ST", 2, "(1)"'],
          "B": ['"B", "ST", 1, "(1)"', '"B", "ST", 11, "(1)"'],
          "C": ['"C", "ST", 1, "(2)"']}
    A1, A2 = st["A"]
    B1, B2 = st["B"]
    (C1,) = st["C"]
    p1, p2 = '"A-B-1", "SBL", 1, "1", "(2)"', '"A-B-2", "SBL", 1, "2", "(2)"'
    q1, q2 = '"A-B-1", "SBL", 11, "1", "(2)"', '"A-B-2", "SBL", 11, "2", "(2)"'
    r1 = '"B-C", "SBL", 1, "1", "(1)"'
    y0 = '"C-Y", "SBL", 1, "1", "(1)"'
    e = [(A1, p1, (1,)), (A2, p1, (1, 2)), (q1, A1, (2, 3)), (A2, q1, (3,)),
         (p1, p2, ()), (q2, q1, ()), (p1, q2, (4,)), (p2, B1, (1,)), (B2, p2, (1, 2)),
         (q2, B1, (2, 3)), (q2, B2, (3,)), (B1, r1, (4,)), (r1, B2, (4, 5)), (r1, C1, (1,)),
         (C1, B2, (5,)), (C1, y0, (2,))]
    return Net("line", st, e)


def net_single():
    """two stations of two tracks joined by one single track of two blocks, and a
    third one behind; the smallest net with all kinds of conflict"""
    st = {"A": ["A1", "A2"], "B": ["B1", "B2"], "C": ["C1"]}
    e = [("A1", "s1", (1,)), ("s1", "A2", (1, 2)), ("s1", "s2", ()), ("B1", "s2", (1,)),
         ("s2", "B2", (1, 2)), ("B1", "t1", (3,)), ("B2", "t1", (3, 4)), ("t1", "C1", (1,))]
    return Net("single", st, e)


def net_katowice():
    """the special areas: KO, its depot KO(STM) and its approach areas KO(IC),
    KO(KS), joined directly, with the exempt depot tracks"""
    st = {"KO": ['"KO", "ST", 1, "(1)"', '"KO", "ST", 2, "(1)"'],
          "KO(STM)": ['"KO", "ST-M", 1114, "(N/A)"', '"KO", "ST-M", 117, "(N/A)"'],
          "KO(KS)": ['"KO", "ST", 301, "(N/A)"'],
          "KO(IC)": ['"KO", "ST", 401, "(N/A)"'],
          "KZ": ['"KZ", "ST", 1, "(1)"']}
    K1, K2 = st["KO"]
    M1, M2 = st["KO(STM)"]
    (S1,) = st["KO(KS)"]
    (I1,) = st["KO(IC)"]
    (Z1,) = st["KZ"]
    l1 = '"KZ-KO", "SBL", 1, "1", "(1)"'
    e = [(K1, M1, (1,)), (M1, K2, (1, 2)), (K1, M2, (2, 3)), (M2, K2, (3,)), (M2, l1, (3, 4)),
         (l1, Z1, (1,)), (S1, K1, (5,)), (S1, K2, (5, 6)), (I1, K1, (6,)), (K2, I1, (7,)),
         (M1, l1, (2, 4, 5))]
    return Net("katowice", st, e)


def net_braid():
    """two stations joined by two blocks that can be run over in either order, one
    of them without running time, and a third station reached directly; names of
    blocks and stations that start alike"""
    st = {"P": ["P1"], "P1": ["Q11", "Q112"], "P11": ["P12"]}
    e = [("P1", "a", (1, 11)), ("b", "P1", (1,)), ("a", "b", ()), ("b", "Q11", (11,)), ("Q11", "a", (1, 2)),
         ("Q11", "P12", (12,)), ("P12", "Q1", (1,)), ("Q1", "Q112", (2,))]
    times = [(0.7, 1.3, 5.2, 7.6), (0.8, 1.4, 5.3, 7.7), (0, 0, 5.4, 0), (1.0, 1.6, 5.5, 7.9),
             (1.1, 0, 0, 8.0), (1.2, 1.8, 5.7, 8.1), (1.3, 1.9, 5.8, 8.2), (1.4, 2.0, 5.9, 8.3)]
    return Net("braid", st, e, times)


NETS = {"line": net_line, "single": net_single, "katowice": net_katowice, "braid": net_braid}
_cache = {}


def net(name):
    if name not in _cache:
        _cache[name] = NETS[name]()
    return _cache[name]
