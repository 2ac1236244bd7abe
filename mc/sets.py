"""Common instance spaces of the checks on sets of trains."""
import itertools

from . import prepared, shipped, world

NUMBERS = (410, 41, 4101)


def shipped_instances():
    for name in shipped.DATASETS:
        yield ("shipped", name)


def pair_instances(specs):
    """all ordered pairs of routes, one instance per first route"""
    for spec in specs:
        for i in range(prepared.route_count(*spec)):
            yield ("pairs", spec, i)


def core_routes(spec):
    """indices of the routes used for sets of three: those that start and end in a
    station and visit at least two"""
    net = world.net(spec[0])
    routes = net.routes(min_blocks=2, max_blocks=spec[1] if len(spec) > 1 else 8,
                        min_stations=spec[2] if len(spec) > 2 else 1)
    return [i for i, r in enumerate(routes)
            if r[0] in net.station_of and r[-1] in net.station_of and len(net.itinerary(r)) >= 2]


def triple_instances(specs, limit=None):
    """all triples of core routes, one instance per ordered pair of the first two"""
    for spec in specs:
        core = core_routes(spec)
        for a, b in itertools.product(core[:limit], repeat=2):
            yield ("triples", spec, a, b, limit)


def worlds(inst):
    """the worlds of an instance: (net, {number: route}, train_dict)"""
    if inst[0] == "pairs":
        _, spec, i = inst
        for k in range(len(prepared.entries(*spec)[0])):
            yield prepared.train_set(spec, NUMBERS, (i, k))
    elif inst[0] == "triples":
        _, spec, a, b, limit = inst
        for c in core_routes(spec)[:limit]:
            yield prepared.train_set(spec, NUMBERS, (a, b, c))


def shipped_world(ctx, inst):
    c = shipped.case(ctx.repo, inst[1])
    return c, c.routes, shipped.prepared(ctx.repo, inst[1])
