"""C12: a delay shifts the delayed train and nothing else."""
import itertools

from mc import shipped
from mc.prepared import df

PROPERTY = "C12"
NUMBERS = (1, 11, 21, 101, 10, 4, 41, 411, "Ks1", "s1", 421009, 42100)
STATIONS = ("KO", "1", "KO(STM)", "KTC-CB", "KO_2")
DELAYS = (2, 5.5, -3)
BOUND = {
    "quick": "all sets of up to 3 of 12 train numbers that contain each other, 5 station names, and every sequence of "
             "up to 3 delays from 3 values on the trains and on one that does not run; every train of every shipped timetable",
    "thorough": "as quick",
}
ASSUMPTIONS = ["train numbers contain no underscore"]


def instances(tier):
    for name in shipped.DATASETS:
        yield ("shipped", name)
    for n in (1, 2, 3):
        for numbers in itertools.combinations(NUMBERS, n):
            for s in range(len(STATIONS)):
                yield ("numbers", numbers, s)


def providers():
    """the exported function, and its twin in utils as long as there is one"""
    import data_formatting.data_formatting.utils as utils

    out = [df().add_delay]
    twin = getattr(utils, "add_delay", None)
    return out if twin in out or twin is None else out + [twin]


def walk(ctx, start, trains, depth):
    for f in providers():
        histories(ctx, f, start, trains, depth)


def histories(ctx, add_delay, start, trains, depth):
    """every history of delays: all reachable states against the sums"""
    def go(state, want, left):
        ctx.state()
        ctx.outcome(tuple(sorted(want.values())))
        if not left:
            return
        for j, key in trains:
            for d in DELAYS:
                before = dict(state)
                with ctx.code("adding a delay"):
                    new = add_delay(state, j, d)
                ctx.step()
                ctx.trace()
                if state != before:
                    ctx.fail(f"adding a delay to {j} modified the conditions passed in: {state} from {before}")
                expected = dict(want)
                if key is not None:
                    expected[key] += d
                if set(new) != set(expected) or any(abs(new[k] - expected[k]) > 1e-9 for k in expected):
                    ctx.fail(f"delay of {d} of train {j} on {before}: {new} instead of {expected}")
                go(new, expected, left - 1)

    go(start, dict(start), depth)


def examine(inst, ctx):
    if inst[0] == "shipped":
        c = shipped.case(ctx.repo, inst[1])
        with ctx.code("initial conditions"):
            start = df().get_initial_conditions(shipped.prepared(ctx.repo, inst[1]), "16:00")
        trains = [(j, f"{j}_{next(c.station_of[b] for b in r if b in c.station_of)}") for j, r in c.routes.items()]
        walk(ctx, start, trains + [(999999, None)], 1)
        return
    _, numbers, s = inst
    keys = {j: f"{j}_{STATIONS[(s + i) % len(STATIONS)]}" for i, j in enumerate(numbers)}
    start = {keys[j]: 7.0 * i - 3 for i, j in enumerate(numbers)}
    walk(ctx, start, list(keys.items()) + [(2, None)], 3 if len(numbers) < 3 else 2)
    if len(numbers) == 3:
        # the longest histories, one delayed train at a time
        for j in numbers:
            walk(ctx, start, [(j, keys[j])], 3)
    ctx.sample({"start": start})
