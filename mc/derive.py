"""Dispatching problems of trains on a network, derived with the reference model."""
import itertools

from . import problems, ref_data as ref


def stock_ok(routes, station_of):
    """every pair of one stock meets at exactly one end, in a station, and the arriving
    train comes from another station"""
    for j, jp in itertools.permutations(routes, 2):
        if str(jp) == str(j) + "9":
            a, b = routes[j], routes[jp]
            if (a[0] == b[-1]) + (b[0] == a[-1]) != 1:
                return False
            arriving, leaving = (jp, j) if a[0] == b[-1] else (j, jp)
            if routes[leaving][0] not in station_of or len(ref.itinerary(routes[arriving], station_of)) < 2:
                return False
            if len(ref.itinerary(routes[leaving], station_of)) < 2:
                return False
    return True


def train_sets(net, routes):
    so = net.station_of
    paths = {j: ref.itinerary(r, so) for j, r in routes.items()}
    order = {j: i for i, j in enumerate(routes)}
    Jd = {}
    for (s, s2), groups in ref.line_groups(routes, so).items():
        Jd.setdefault(s, {})[s2] = sorted((sorted(g, key=order.get) for g in groups), key=lambda g: order[g[0]])
    single = {}
    for pair in ref.head_on(routes, so):
        (j, s), (jp, sp) = sorted(pair, key=lambda x: order[x[0]])
        single.setdefault((s, sp), []).append((j, jp))
    track = {s: sorted((sorted(g, key=order.get) for g in groups), key=lambda g: order[g[0]])
             for s, groups in ref.track_groups(routes, so, net.stations).items()}
    switch = {s: sorted((dict(sorted(p, key=lambda x: order[x[0]])) for p in pairs), key=str)
              for s, pairs in ref.switch_pairs(routes, so, net.switches).items()}
    return problems.sets(
        paths, skip={j: so[r[-1]] for j, r in routes.items() if r[-1] in so}, Jd=Jd, Josingle=single,
        Jtrack={s: [g for g in v if len(g) > 1] for s, v in track.items()}, Jswitch=switch,
        Jround={s: sorted(v) for s, v in ref.stock_pairs(routes, so).items()})
