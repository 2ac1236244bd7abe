"""C02: block running times follow the travel direction and the speed class."""
import itertools
import math
import os
import pickle
import tempfile

from mc import shipped, world
from mc.prepared import df

PROPERTY = "C02"
CHAIN = ('"A", "ST", 1, "(1)"', '"A-B-1", "SBL", 1, "1", "(2)"', '"A-B-2", "SBL", 1, "2", "(2)"', '"B", "ST", 1, "(1)"')
BOUND = {
    "quick": "chains of four blocks: every orientation and every order of the rows of the network table, every "
             "sub-route in both directions, every pattern of speed classes; every walk of four blocks that turns "
             "back, with every pattern of speed classes; every labelling of the blocks with "
             "stations; every pair of blocks that is not joined; the timetables of one to three trains kept in a file or "
             "not; all routes of the networks 'single' and 'braid'; all shipped timetables",
    "thorough": "as quick with a fourth row that branches off and all routes of the networks 'katowice' and 'line'",
}
ASSUMPTIONS = ["the network table has one row per pair of joined blocks", "speed classes are R and IC"]


def instances(tier):
    for name in shipped.DATASETS:
        yield ("shipped", name)
    for flips in itertools.product((0, 1), repeat=3):
        for order in itertools.permutations(range(3)):
            yield ("chain", flips, order)
            if order in ((0, 1, 2), (2, 0, 1)) or tier == "thorough":
                yield ("turns", flips, order)
    for labels in itertools.product((0, 1, 2), repeat=4):
        yield ("labels", labels)
    for flips in itertools.product((0, 1), repeat=3):
        yield ("unjoined", flips)
    for save in (None, False, True):
        for n in (1, 2, 3):
            yield ("kept", save, n)
    for net in ("single", "braid"):
        for speed in ("R", "IC"):
            yield ("routes", net, speed)
    if tier == "thorough":
        for net in ("katowice", "line"):
            for speed in ("R", "IC"):
                yield ("routes", net, speed)


def chain(flips, order):
    edges = [(CHAIN[i], CHAIN[i + 1], (i + 1,)) if not flips[i] else (CHAIN[i + 1], CHAIN[i], (i + 1,))
             for i in range(3)]
    return world.Net("chain", {"A": [CHAIN[0]], "B": [CHAIN[3]]}, [edges[i] for i in order])


def subroutes():
    for i in range(4):
        for k in range(i + 2, 5):
            yield CHAIN[i:k]
            yield tuple(reversed(CHAIN[i:k]))


def turns():
    """walks of four blocks that are no sub-route"""
    for steps in itertools.product((-1, 1), repeat=3):
        for start in range(4):
            w = [start]
            for s in steps:
                w.append(w[-1] + s)
            if all(0 <= k < 4 for k in w) and len(set(steps)) > 1:
                yield tuple(CHAIN[k] for k in w)


def near(a, b):
    return isinstance(a, (int, float)) and abs(a - b) < 1e-9 or hasattr(a, "dtype") and abs(float(a) - b) < 1e-9


def judge(ctx, td, trains, net):
    for t in trains:
        table = td[t["number"]][1]
        route = [b for b, _ in t["rows"]]
        speeds = [c["speed"] for _, c in t["rows"]]
        ctx.trace()
        ctx.same(list(table["path"]), route, "blocks")
        times = table["passing_time"].tolist()
        labels = table["important_station"].tolist()
        ctx.same(len(times), len(route), "number of running times")
        for i, b in enumerate(route):
            ctx.state()
            ctx.step(2)
            if i + 1 < len(route):
                want = net.time(b, route[i + 1], speeds[i])
                ctx.outcome((b, route[i + 1], speeds[i], want))
                if not near(times[i], want):
                    ctx.fail(f"running time of train {t['number']} on {b} towards {route[i + 1]} at {speeds[i]}: "
                             f"{times[i]!r} instead of {want!r}")
            elif not math.isnan(float(times[i])):
                ctx.fail(f"last block has a running time {times[i]!r}")
            want = net.station_of.get(b)
            if want is None:
                if not (isinstance(labels[i], float) and math.isnan(labels[i])) and labels[i] is not None:
                    ctx.fail(f"block {b} labelled {labels[i]!r} though it belongs to no station")
            elif labels[i] != want:
                ctx.fail(f"block {b} labelled {labels[i]!r} instead of {want!r}")


def kept(ctx, save, n):
    """the timetables go to a file exactly when that is asked for, and read back the same"""
    net = chain((0, 1, 0), (2, 0, 1))
    trains = [world.train(1 + i, r, speed=("R", "IC")[i % 2]) for i, r in enumerate(list(subroutes())[:n])]
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            more = {} if save is None else {"save": save}
            if save:
                # what was saved before must not come back
                other = [world.train(9, CHAIN[::-1])]
                with ctx.code("preparing the timetables"):
                    df().update_all_timetables(df().timetable_to_train_dict(world.read_csv(other)), net.table(),
                                               net.stations, save=True)
            with ctx.code("preparing the timetables"):
                td = df().update_all_timetables(df().timetable_to_train_dict(world.read_csv(trains)), net.table(),
                                                net.stations, **more)
            files = sorted(os.listdir(d))
            ctx.step()
            ctx.same(len(files), 1 if save else 0, f"files written when saving is {save}")
            judge(ctx, td, trains, net)
            if save:
                with open(files[0], "rb") as f:
                    again = pickle.load(f)
                ctx.same(sorted(again), sorted(td), "trains in the file")
                judge(ctx, again, trains, net)
        finally:
            os.chdir(here)


def examine(inst, ctx):
    kind = inst[0]
    if kind == "shipped":
        c = shipped.case(ctx.repo, inst[1])
        with ctx.code("preparing the timetables"):
            td = shipped.prepared(ctx.repo, inst[1])
        last = {t["number"]: t for t in c.trains}
        judge(ctx, td, list(last.values()), c)
        return
    if kind == "turns":
        net = chain(inst[1], inst[2])
        trains = []
        for route in turns():
            for speeds in itertools.product(("R", "IC"), repeat=len(route)):
                trains.append(world.train(100 + len(trains), route, speed=speeds))
        with ctx.code("preparing the timetables"):
            td = world.load(trains, net, df())
        judge(ctx, td, trains, net)
        return
    if kind == "chain":
        net = chain(inst[1], inst[2])
        trains = []
        for route in subroutes():
            for speeds in itertools.product(("R", "IC"), repeat=len(route)):
                trains.append(world.train(100 + len(trains), route, speed=speeds))
        with ctx.code("preparing the timetables"):
            td = world.load(trains, net, df())
        ctx.sample({"rows of the network": net.edges, "times": net.times, "trains": len(trains)})
        judge(ctx, td, trains, net)
        table = net.table()
        for route in subroutes():
            for speed in ("R", "IC"):
                with ctx.code("single running time"):
                    got = df().single_passing_time([route[0], route[1], speed], table)
                ctx.step()
                if not near(got, net.time(route[0], route[1], speed)):
                    ctx.fail(f"single running time {route[:2]} {speed}: {got!r}")
        return
    if kind == "labels":
        net = chain((0, 1, 0), (0, 1, 2))
        net.stations = {"A": [CHAIN[i] for i in range(4) if inst[1][i] == 1] + ['"A", "ST", 7, "(1)"'],
                        "B": [CHAIN[i] for i in range(4) if inst[1][i] == 2]}
        net.station_of = {b: s for s, bs in net.stations.items() for b in bs}
        trains = [world.train(1, CHAIN), world.train(2, tuple(reversed(CHAIN)), speed="IC")]
        with ctx.code("preparing the timetables"):
            td = world.load(trains, net, df())
        judge(ctx, td, trains, net)
        return
    if kind == "unjoined":
        net = chain(inst[1], (2, 0, 1))
        table = net.table()
        for a, b in itertools.permutations(CHAIN + ('"C", "ST", 1, "(1)"',), 2):
            if net.joined(a, b):
                continue
            ctx.state()
            for speed in ("R", "IC"):
                ctx.step()
                ctx.trace()
                ctx.refused(lambda: df().single_passing_time([a, b, speed], table), f"running time from {a} to {b}")
            for route in ((a, b), (a, b, CHAIN[0])):
                trains = [world.train(1, CHAIN[:2]), world.train(2, route)]
                ctx.refused(lambda: world.load(trains, net, df()), f"timetable with the step {a} - {b}")
        return
    if kind == "kept":
        kept(ctx, inst[1], inst[2])
        return
    if kind == "routes":
        net = world.net(inst[1])
        trains = [world.train(1000 + i, r, speed=inst[2]) for i, r in enumerate(net.routes(max_blocks=6))]
        with ctx.code("preparing the timetables"):
            td = world.load(trains, net, df())
        judge(ctx, td, trains, net)
