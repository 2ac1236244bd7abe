"""C01: timetable files are read completely, each row to its own train."""
import itertools
import math

from mc import shipped, world
from mc.prepared import df

PROPERTY = "C01"
ORIGINS = ("from Tychy Lodowisko", "departs from Katowice")
DESTS = ("to Gliwice", "terminates in Katowice", "to Łódź")
BLOCKS = ('"A", "ST", 1, "(1)"', '"A-B", "SBL", 1, "1", "(1)"', '"B", "ST", 1, "(1)"')
VARIANTS = [(o, d, n) for o in range(2) for d in range(2) for n in (1, 2, 3)]
BOUND = {
    "quick": "files of 1-3 trains, every order of 12 header/length variants; files of 3 trains where the middle "
             "train of two rows has every pattern of time cells (empty or one of two times, in any column) and of the "
             "other cells; files where it has four rows, each empty, with an entry time or with two times, of at most two "
             "values, on every sequence of two blocks; all shipped files",
    "thorough": "as quick with all 20 variants and all patterns of filled cells on both rows",
}
ASSUMPTIONS = ["a timetable file has the layout of the shipped ones: a separator row, category, number, "
               "name, origin, rows, destination per train"]
TIMES = ("Arr", "Dep", "Approx_enter")
OTHERS = ("Label", "Shunting", "Turnaround_time_minutes")
VALUES = {"Arr": "15:4%d", "Dep": "15:4%d", "Approx_enter": "15:4%d", "Label": "Katowice Brynów %d",
          "Shunting": "Y", "Turnaround_time_minutes": "%d"}


def instances(tier):
    for name in shipped.DATASETS:
        yield ("shipped", name)
    for n in (1, 2, 3):
        for combo in itertools.product(range(len(VARIANTS)), repeat=n):
            yield ("headers", combo)
    # times and blocks that repeat
    for blocks in itertools.product((0,), *[(0, 1)] * 3):
        for rows in itertools.product(range(5), repeat=4):
            if tier == "thorough" or sum(blocks) in (0, 2) or rows[0] == rows[1]:
                yield ("repeats", blocks, rows)
    # every pattern of filled cells in the two rows of the middle train
    for times in itertools.product((0, 1, 2), repeat=6):
        if next((t for t in times if t), 1) == 2:
            continue  # the same with the two times exchanged
        for other in itertools.product((0, 1), repeat=3):
            if tier == "thorough":
                for other2 in itertools.product((0, 1), repeat=3):
                    yield ("cells", times, other + other2)
            else:
                yield ("cells", times, other + tuple(1 - x for x in other))


def make(inst):
    if inst[0] == "headers":
        trains = []
        for k, v in enumerate(inst[1]):
            o, d, n = VARIANTS[v]
            cells = {i: {"speed": ("R", "IC")[(i + k) % 2], "Dep": f"1{k}:0{i}"} for i in range(n)}
            trains.append(world.train((94766, 4120, 421009)[k], BLOCKS[:n], ("KS - Os", "IC - EIP", "PR - R")[k],
                                      ("S5 SPRINTER", "No name", "DOKER")[k], ORIGINS[o], DESTS[d], cells=cells))
        return trains
    if inst[0] == "repeats":
        _, blocks, rows = inst
        cells = {}
        for i, kind in enumerate(rows):
            c = cells[i] = {"speed": "R"}
            if kind in (1, 2):
                c["Approx_enter"] = "16:0%d" % kind
            elif kind:
                c["Arr"] = "16:01"
                c["Dep"] = "16:0%d" % (kind - 2)
        return [world.train(10, BLOCKS[:2], cells={0: {"Dep": "16:01"}, 1: {"Approx_enter": "16:01"}}),
                world.train(109, [BLOCKS[k] for k in blocks], cells=cells),
                world.train(11, BLOCKS[:2], cells={0: {"Dep": "16:01"}, 1: {"Approx_enter": "16:01"}})]
    _, times, other = inst
    cells = {}
    for i in range(2):
        c = cells[i] = {"speed": "R"}
        for k, name in enumerate(TIMES):
            if times[3 * i + k]:
                c[name] = VALUES[name] % times[3 * i + k]
        for k, name in enumerate(OTHERS):
            if other[3 * i + k]:
                c[name] = VALUES[name] % (i + 5) if "%" in VALUES[name] else VALUES[name]
    return [world.train(10, BLOCKS[:2], cells={0: {"Dep": "15:01"}, 1: {"Label": "x"}}),
            world.train(109, BLOCKS[1:], cells=cells),
            world.train(11, BLOCKS[:1], cells={0: {"Arr": "17:59"}})]


def is_nan(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def same_cell(got, want):
    """want: text of the file, '' or None when empty"""
    if want in (None, ""):
        return is_nan(got)
    if is_nan(got):
        return False
    try:
        return float(got) == float(want)
    except (TypeError, ValueError):
        return str(got) == want


def examine(inst, ctx):
    import pandas as pd

    if inst[0] == "shipped":
        trains = shipped.read_trains(shipped.csv_path(ctx.repo, inst[1]))
        data = pd.read_csv(shipped.csv_path(ctx.repo, inst[1]), sep=";", engine="python")
    else:
        trains = make(inst)
        data = world.read_csv(trains)
        if inst[0] == "cells" and sum(inst[1]) == 3:
            ctx.sample({"file": world.csv_text(trains)})
    with ctx.code("reading the timetable file"):
        td = df().timetable_to_train_dict(data)
    ctx.trace()
    numbers = [t["number"] for t in trains]
    for n in sorted({n for n in numbers if numbers.count(n) > 1}):
        # the later description replaces the earlier one
        ctx.note(f"train {n} is described {numbers.count(n)} times and loaded once", f"{inst[1]}:{n}:described-twice")
        keep = max(i for i, t in enumerate(trains) if t["number"] == n)
        trains = [t for i, t in enumerate(trains) if t["number"] != n or i == keep]
    ctx.same(sorted(td.keys()), sorted(t["number"] for t in trains), "trains in the file")
    for t in trains:
        n = t["number"]
        info, table = td[n]
        ctx.same(list(info), [t["category"], t["name"], t["origin"], t["destination"]], f"description of train {n}")
        with ctx.code("reading the rows of a train"):
            table2 = df().train_time_table(td, n)
            arrdep = df().get_arrdep(table)
            vals = df().get_arr_dep_vals(table)
        ctx.same(list(table["path"]), [b for b, _ in t["rows"]], f"blocks of train {n}")
        ctx.same(list(table2["path"]), [b for b, _ in t["rows"]], f"blocks of train {n}")
        ctx.same(list(table.index), list(range(len(t["rows"]))), f"numbers of the rows of train {n}")
        want_vals = []
        for i, (b, c) in enumerate(t["rows"]):
            ctx.state()
            for col in world.CELLS:
                ctx.step()
                if not same_cell(table[col].tolist()[i], c.get(col)):
                    ctx.fail(f"train {n} row {i} column {col}: {table[col].tolist()[i]!r} instead of {c.get(col)!r}")
                if col in TIMES and not same_cell(arrdep[col].tolist()[i], c.get(col)):
                    ctx.fail(f"times of train {n} row {i} column {col}: {arrdep[col].tolist()[i]!r}")
            if any(c.get(col) for col in TIMES):
                want_vals.append([c.get(col) for col in TIMES])
        ctx.outcome((n, len(t["rows"]), str(want_vals)))
        if len(vals) != len(want_vals) or not all(
            len(g) == 3 and all(same_cell(x, y) for x, y in zip(g, w)) for g, w in zip(vals, want_vals)
        ):
            ctx.fail(f"listed times of train {n}: {vals!r} instead of {want_vals!r}")
