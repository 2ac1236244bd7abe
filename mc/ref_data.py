"""Reference model of the preparation of the data, read off the blocks travelled.

A train is its list of blocks (a block never occurs twice in a route, and no
station is visited with two blocks).  `station_of` maps a block to its station.
"""
import itertools
import math

EXEMPT_TRACK_STATIONS = ("KO(KS)", "KO(IC)")
EXEMPT_TRACKS = ('"KO", "ST-M", 1114, "(N/A)"', '"KO", "ST-M", 1113, "(N/A)"',
                 '"KO", "ST-M", 1118, "(N/A)"')
EXEMPT_SWITCH_STATIONS = ("KO(IC)", "KO(KS)")
MAIN_AREAS = ("KO", "KO(STM)")
ONE_BLOCK_SECTIONS = ({"KO(STM)", "KZ"}, {"CB", "CM"})


def itinerary(route, station_of):
    return [station_of[b] for b in route if b in station_of]


def steps(route, station_of):
    """(station, next station, blocks strictly between)"""
    stops = [i for i, b in enumerate(route) if b in station_of]
    return [(station_of[route[i]], station_of[route[k]], tuple(route[i + 1:k]))
            for i, k in zip(stops, stops[1:])]


def between(route, s1, s2, station_of):
    pos = {station_of[b]: i for i, b in enumerate(route) if b in station_of}
    return tuple(route[pos[s1] + 1:pos[s2]])


def line_groups(routes, station_of):
    """{(s, s'): set of groups}"""
    by_path = {}
    for j, route in routes.items():
        for s, s2, blocks in steps(route, station_of):
            by_path.setdefault((s, s2), {}).setdefault(blocks, set()).add(j)
    return {k: {frozenset(g) for g in v.values()} for k, v in by_path.items()}


def head_on(routes, station_of):
    """{{(j, s), (j', s')}} of the pairs that meet between s and s'"""
    out = set()
    for j, jp in itertools.combinations(routes, 2):
        for s, s2, blocks in steps(routes[j], station_of):
            if not blocks:
                continue
            for sp, sp2, blocks2 in steps(routes[jp], station_of):
                if (sp, sp2) == (s2, s) and blocks2 == tuple(reversed(blocks)):
                    out.add(frozenset(((j, s), (jp, s2))))
    return out


def track_groups(routes, station_of, stations):
    out = {}
    for s in stations:
        if s in EXEMPT_TRACK_STATIONS:
            continue
        by_track = {}
        for j, route in routes.items():
            for b in route:
                if station_of.get(b) == s and b not in EXEMPT_TRACKS:
                    by_track.setdefault(b, set()).add(j)
        out[s] = {frozenset(g) for g in by_track.values()}
    return out


def switch_steps(route, station_of, switches):
    """{(station, role): set of switches passed}; steps between the two main
    areas belong to the first of them"""
    stops = [i for i, b in enumerate(route) if b in station_of]
    out = {}
    for n, i in enumerate(stops):
        s = station_of[route[i]]
        if n > 0:
            out[(s, "in")] = (route[i - 1], set(switches(route[i - 1], route[i])))
        if n < len(stops) - 1:
            out[(s, "out")] = (route[i + 1], set(switches(route[i], route[i + 1])))
    return {
        k: sw for k, (other, sw) in out.items()
        if not (k[0] == MAIN_AREAS[1] and station_of.get(other) == MAIN_AREAS[0])
        and k[0] not in EXEMPT_SWITCH_STATIONS
    }


def switch_pairs(routes, station_of, switches):
    """{station: set of {(j, role), (j', role')}}"""
    passed = {j: switch_steps(r, station_of, switches) for j, r in routes.items()}
    out = {}
    for j, jp in itertools.combinations(routes, 2):
        for (s, role), sw in passed[j].items():
            for role2 in ("in", "out"):
                if sw & passed[jp].get((s, role2), set()):
                    out.setdefault(s, set()).add(frozenset(((j, role), (jp, role2))))
    return out


def stock_pairs(routes, station_of):
    """{station: set of (arriving train, continuing train)}"""
    out = {}
    for j in routes:
        for jp in routes:
            if str(jp) == str(j) + "9":
                if routes[j][0] == routes[jp][-1]:
                    out.setdefault(station_of[routes[j][0]], set()).add((jp, j))
                elif routes[jp][0] == routes[j][-1]:
                    out.setdefault(station_of[routes[jp][0]], set()).add((j, jp))
    return out


def running_times(route, leave_time, station_of):
    """{(s, s'): time}; leave_time: time of each block of the route"""
    t = dict(zip(route, leave_time))
    return {(s, s2): math.fsum(t[b] for b in blocks) for s, s2, blocks in steps(route, station_of)}


def stays(route, leave_time, turnaround, station_of):
    """({station: stay}, {station: preparation})"""
    stay, prep = {}, {}
    first = True
    for i, b in enumerate(route):
        s = station_of.get(b)
        if s is None:
            continue
        if i == len(route) - 1:
            if first and turnaround[i]:
                prep[s] = turnaround[i]
            break
        stay[s] = leave_time[i]
        if turnaround[i]:
            if first:
                prep[s] = turnaround[i]
            else:
                stay[s] = stay[s] + turnaround[i]
        first = False
    return stay, prep


def headway(t1, t2, k):
    """smallest spacing of departures so that the second train enters block x only
    when the first has left the k blocks from x on"""
    n = len(t1)
    best = 0
    for x in range(n):
        left = math.fsum(t1[:min(x + k, n)])
        best = max(best, left - math.fsum(t2[:x]))
    return best


def blocks_ahead(s, s2):
    return 1 if {s, s2} in ONE_BLOCK_SECTIONS else 2


def minutes(t_ref, t):
    def m(x):
        h, mm = str(x).split(":")[:2]
        return int(h) * 60 + int(mm)

    return m(t) - m(t_ref)


def close(a, b, eps=1e-6):
    return abs(a - b) <= eps


def is_rounding(value, exact):
    """value is an integer nearest to exact (both neighbours at a half)"""
    return close(value, round(value), 1e-9) and abs(value - exact) <= 0.5 + 1e-6
