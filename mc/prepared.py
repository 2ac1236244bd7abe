"""Worlds prepared by the code of the repository, cached per process."""
import itertools

from . import world

_loaded = {}


def df():
    import data_formatting.data_formatting as m

    return m


def entries(netname, max_blocks=8, min_stations=1, min_blocks=2):
    """(routes, prepared entry of each route), in a fixed order"""
    key = (netname, max_blocks, min_stations, min_blocks)
    if key not in _loaded:
        net = world.net(netname)
        routes = net.routes(min_blocks=min_blocks, max_blocks=max_blocks, min_stations=min_stations)
        trains = [world.train(1000 + i, r) for i, r in enumerate(routes)]
        d = world.load(trains, net, df())
        _loaded[key] = (routes, [d[1000 + i] for i in range(len(routes))])
    return _loaded[key]


def route_count(netname, max_blocks=8, min_stations=1, min_blocks=2):
    net = world.net(netname)
    return len(net.routes(min_blocks=min_blocks, max_blocks=max_blocks, min_stations=min_stations))


def train_set(spec, numbers, indices):
    """spec: arguments of entries(); a world with the chosen routes in the given
    listing order: (net, {number: route}, train_dict)"""
    routes, ents = entries(*spec)
    net = world.net(spec[0])
    return (net, {n: routes[i] for n, i in zip(numbers, indices)},
            {n: ents[i] for n, i in zip(numbers, indices)})


def ordered_pairs(spec):
    n = route_count(*spec)
    return itertools.product(range(n), repeat=2)
