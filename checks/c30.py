"""C30: statistics and comparison plots show the recorded results."""
import ast
import contextlib
import io
import itertools
import math
import os
import pickle
import re
import runpy
import shutil
import tempfile

PROPERTY = "C30"
BOUND = {
    "quick": "delays: all tables of two trains and two stations whose entries are missing, without delay, with an empty delay or "
             "one of three delays, and all pairs of such tables with two delays; statistics: all lists of one to five delays of "
             "four values; the statistics script on the recorded schedules and on 20 schedules that all differ; comparison plots "
             "(both scripts): one to three instances, every pattern of feasible results, one or two time limits, three cases in "
             "every order, one or two solvers, the recorded results of case 3; time sweeps (both scripts): two or three limits, "
             "one to three samples in every order of their values, each one infeasible or none, the recorded sweeps",
    "thorough": "as quick with pairs of tables with three delays",
}
ASSUMPTIONS = ["the plotting library is replaced by a stand-in that keeps the data of every series",
               "the computing time of the exact solver in the sweep is a constant of the script and not judged"]
EPS = 1e-6
NOTHING, NO_DELAY, EMPTY = "nothing", "no delay", "empty"
ENTRIES = (NOTHING, NO_DELAY, EMPTY, 0, 3, 7.5)
STATIONS = ("KO(STM)", "KO", "CB", "KL", "MJ")


def instances(tier):
    for name in ("stats", "compare3", "compare_lim3", "sweep", "sweep_rev"):
        yield ("shipped", name)
    yield ("stats script",)
    for a in itertools.product(ENTRIES, repeat=2):
        yield ("one table", a)
    for a in itertools.product((NOTHING, 0, 4) if tier == "quick" else (NOTHING, EMPTY, 0, 4), repeat=4):
        yield ("two tables", a)
    for n in range(1, 6):
        yield ("lists", n)
    for lim in (False, True):
        for n in (1, 2, 3):
            for times in ((5,), (5, 20), (20, 5)):
                yield ("compare", lim, n, times, ("CPLEX_CMD",), (2,))
        for cases in itertools.permutations((1, 2, 3)):
            yield ("compare", lim, 2, (5, 20), ("CPLEX_CMD", "PULP_CBC_CMD"), cases)
    for rev in (False, True):
        for case in ("case7", "case9"):
            for n in (1, 2, 3):
                for tmins in ((5, 10), (5, 7, 60), (60, 5)):
                    yield ("sweep", rev, case, n, tmins)


# ------------------------------------------------------------------ running the scripts

def script(ctx, *parts, main=False):
    path = os.path.join(ctx.repo, *parts)
    return runpy.run_path(path, run_name="__main__" if main else "plots")


@contextlib.contextmanager
def folder():
    """a working directory of its own, and the figures saved meanwhile"""
    import matplotlib.pyplot as plt

    old, base = os.getcwd(), tempfile.mkdtemp(prefix="mc_plots_")
    os.chdir(base)
    plt.saved.clear()
    plt.close()
    try:
        yield base, plt.saved
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


def dump(name, value):
    with open(name, "wb") as f:
        pickle.dump(value, f)


def load(path):
    import pandas as pd

    return pd.read_pickle(path)


def near(a, b):
    return abs(float(a) - float(b)) <= EPS * max(1.0, abs(float(b)))


def same_list(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not near(x, y):
            return False
    return True


# ------------------------------------------------------------------ statistics

def quantile(values, q):
    v = sorted(values)
    p = q * (len(v) - 1)
    i = int(math.floor(p))
    return v[i] + (p - i) * (v[min(i + 1, len(v) - 1)] - v[i])


def mean(v):
    return sum(v) / len(v)


def stats(values):
    return {"q25": quantile(values, 0.25), "mean": mean(values), "q75": quantile(values, 0.75), "min": min(values),
            "max": max(values)}


def table(entries, trains=(11, 119), stations=("KO", "CB")):
    d = {}
    for (j, s), e in zip(itertools.product(trains, stations), entries):
        d.setdefault(j, {})
        if e == NOTHING:
            continue
        d[j][s] = {"arrive": 1, "departure": 2}
        if e == EMPTY:
            d[j][s]["secondary delay"] = ""
        elif e != NO_DELAY:
            d[j][s]["secondary delay"] = e
    return d


def collected(tables):
    out = {}
    for d in tables:
        for j in d:
            for s in d[j]:
                e = d[j][s].get("secondary delay", "") if isinstance(d[j][s], dict) else ""
                if e != "":
                    out.setdefault(s, []).append(e)
    return out


def judge_delays(ctx, g, tables):
    delays = {}
    before = repr(tables)
    for d in tables:
        with ctx.code("collecting delays"):
            g["add_delays_one_realisation"](delays, d)
        ctx.step()
    want = collected(tables)
    if {s: sorted(v) for s, v in delays.items()} != {s: sorted(v) for s, v in want.items()}:
        ctx.fail(f"collected delays {delays} instead of {want} from {tables}")
    if repr(tables) != before:
        ctx.fail(f"collecting delays changes the results {before} to {tables}")
    ctx.state()
    ctx.trace()
    ctx.outcome(tuple(sorted((s, tuple(sorted(v))) for s, v in want.items())))


PRINTED = {"max delay": "max", "quantile 75": "q75", "mean": "mean", "quantile 25": "q25", "min": "min"}


def read_printed(text):
    """[(case or None, {name: values})] of the printed statistics"""
    blocks = []
    case = None
    for line in text.splitlines():
        m = re.match(r"case\s+(\d+)\s*$", line)
        if m:
            case = int(m.group(1))
        if line.startswith("stations"):
            blocks.append((case, {"stations": ast.literal_eval(line[len("stations"):].strip())}))
        for name, key in PRINTED.items():
            m = re.match(re.escape(name) + r"\s*(\[.*\])\s*$", line)
            if m and blocks:
                blocks[-1][1][key] = ast.literal_eval(m.group(1))
    return blocks


def judge_printed(ctx, block, delays, stations, what):
    want = [stats(delays[s]) for s in stations]
    if list(block.get("stations", ())) != list(stations):
        ctx.fail(f"{what}: printed stations {block.get('stations')} instead of {stations}")
    for key in PRINTED.values():
        if not same_list(block.get(key, ()), [w[key] for w in want]):
            ctx.fail(f"{what}: printed {key} {block.get(key)} instead of {[w[key] for w in want]}")
    ctx.step(len(PRINTED))


def judge_lists(ctx, g, n):
    for v in itertools.product((0, 1, 2.5, 40), repeat=n):
        delays = {"CB": list(v), "KO": [x + 1 for x in v[:2]], "KL": [5]}
        for stations in (["CB", "KO"], ["KO", "CB", "KL"]):
            text = io.StringIO()
            with ctx.code("computing statistics"), contextlib.redirect_stdout(text):
                q25, means, q75 = g["get_print_statistics"](delays, list(stations))
            want = [stats(delays[s]) for s in stations]
            for got, key in ((q25, "q25"), (means, "mean"), (q75, "q75")):
                if not same_list(list(got), [w[key] for w in want]):
                    ctx.fail(f"{key} of {delays} at {stations}: {got} instead of {[w[key] for w in want]}")
            blocks = read_printed(text.getvalue())
            if len(blocks) != 1:
                ctx.fail(f"the statistics are printed {len(blocks)} times")
            judge_printed(ctx, blocks[0][1], delays, stations, f"statistics of {delays}")
            ctx.state()
            ctx.trace()
            ctx.step(3)
            ctx.outcome((v, tuple(stations)))


def judge_stats_script(ctx, files):
    """files: {name: results}; already in the working directory"""
    import matplotlib.pyplot as plt

    text = io.StringIO()
    with ctx.code("running visualise_statistics.py"), contextlib.redirect_stdout(text):
        script(ctx, "solutions_quantum", "data4diagrams", "visualise_statistics.py", main=True)
    blocks = read_printed(text.getvalue())
    want = []
    for k in range(10):
        want.append((k, collected(files[f"cqm5_case{k}_Integer.pkl"].values())))
    for k in range(10):
        want.append((k, collected([files[f"PULP_CBC_CMD_case{k}_Integer.pkl"]])))
    if [b[0] for b in blocks] != [w[0] for w in want]:
        ctx.fail(f"statistics are printed for the cases {[b[0] for b in blocks]}")
    for n, ((k, block), (_, delays)) in enumerate(zip(blocks, want)):
        what = f"case {k}, {'hybrid' if n < 10 else 'classical'}"
        judge_printed(ctx, block, delays, STATIONS, what)
        ctx.state()
        ctx.trace()
        ctx.outcome((n, tuple(map(repr, block["mean"]))))
    names = {}
    for name, axes in plt.saved:
        m = re.match(r"(.*?)_?case(\d+)\.pdf$", name)
        if not m:
            ctx.fail(f"a figure is saved as {name}")
        key = ("classical" in m.group(1), int(m.group(2)))
        if key in names:
            ctx.fail(f"the figure {name} is saved twice")
        names[key] = axes
    if set(names) != {(c, k) for c in (False, True) for k in (0, 4, 7)}:
        ctx.fail(f"figures are saved for {sorted(names)}")
    for (classical, k), axes in sorted(names.items()):
        delays = want[k + (10 if classical else 0)][1]
        w = [stats(delays[s]) for s in STATIONS]
        what = f"figure of case {k}, {'classical' if classical else 'hybrid'}"
        series = [s for a in axes for s in a.series]
        expected = [[x[key] for x in w] for key in ("mean", "q25", "q75")]
        for s in series:
            if not same_list(s.x, STATIONS):
                ctx.fail(f"{what}: stations {s.x}")
            if not any(same_list(s.y, e) for e in expected):
                ctx.fail(f"{what}: the series {s.y} is none of mean and quartiles {expected}")
        for e in expected:
            if not any(same_list(s.y, e) for s in series):
                ctx.fail(f"{what}: the series {e} is missing")
        bars = [s for s in series if s.kind == "errorbar"]
        if len(bars) != 1 or not same_list(bars[0].y, expected[0]):
            ctx.fail(f"{what}: no error bars around the mean")
        low, up = bars[0].more["yerr"]
        if not same_list(low, [x["mean"] - x["min"] for x in w]) or not same_list(up, [x["max"] - x["mean"] for x in w]):
            ctx.fail(f"{what}: error bars {low}, {up} do not reach the extremes of {w}")
        title = " ".join(str(a.texts.get("title", "")) for a in axes)
        if not re.search(rf"\b{k}\b", title):
            ctx.fail(f"{what}: title {title!r}")
        ctx.step(len(series))
        ctx.trace()


def different_schedules():
    files = {}
    for k in range(10):
        def one(r):
            return {j: {s: {"secondary delay": (k * 7 + r * 3 + j * (i + 2) + i * i) % 23} if (j + i + k) % 4 else {"arrive": 1}
                        for i, s in enumerate(STATIONS + ("Mc",))} for j in range(1, 5)}
        files[f"cqm5_case{k}_Integer.pkl"] = {r: one(r) for r in range(1, 4 + k % 2)}
        files[f"PULP_CBC_CMD_case{k}_Integer.pkl"] = one(11)
    return files


# ------------------------------------------------------------------ comparison plots

def axis(ctx, axes, word):
    found = [a for a in axes if word in str(a.texts.get("ylabel", "")).lower()]
    if len(found) != 1:
        ctx.fail(f"{len(found)} axes of '{word}'")
    return found[0]


def judge_axis(ctx, a, expected, what):
    """expected: [(y, colours or None, words of the label, x)]; each has to be drawn, and nothing else"""
    for s in a.series:
        fits = [e for e in expected if same_list(s.x, e[3]) and same_list(s.y, e[0])]
        if not fits:
            ctx.fail(f"{what}: the series {s.label!r} {list(zip(s.x, s.y))[:8]} is none of the results {expected}"[:1500])
        if isinstance(s.color, (list, tuple)) and not any(e[1] is None or list(s.color) == list(e[1]) for e in fits):
            ctx.fail(f"{what}: the series {s.label!r} has the colours {s.color} instead of {[e[1] for e in fits]}")
        if s.label is not None and not any(all(re.search(w, s.label) for w in e[2]) for e in fits):
            ctx.fail(f"{what}: the series {s.y} is labelled {s.label!r}")
        ctx.step()
    for e in expected:
        mine = [s for s in a.series if same_list(s.x, e[3]) and same_list(s.y, e[0])]
        if not any(s.label is not None and all(re.search(w, s.label) for w in e[2]) for s in mine):
            ctx.fail(f"{what}: the results {e[0]} labelled {e[2]} are not drawn")
        if e[1] is not None and not any(isinstance(s.color, (list, tuple)) and list(s.color) == list(e[1]) for s in mine):
            ctx.fail(f"{what}: feasibility of the results {e[0]} is not shown")


def judge_compare(ctx, files, lim, times, solvers, cases, plot):
    import matplotlib.pyplot as plt

    plt.saved.clear()
    plt.close()
    text = io.StringIO()
    with ctx.code("plotting the comparison"), contextlib.redirect_stdout(text):
        plot(list(solvers), list(cases), {c: list(times) for c in cases})
    what = f"{'fast_plot_lim' if lim else 'fast_plot'}, solvers {solvers}, cases {cases}, limits {times}"
    wanted = [(c, s) for c in cases for s in solvers]
    if len(plt.saved) != len(wanted) or len({n for n, _ in plt.saved}) != len(wanted):
        ctx.fail(f"{what}: figures {[n for n, _ in plt.saved]}")
    printed = {k: [float(x) for x in re.findall(rf"{k}\s+([-\d.e+]+)", text.getvalue())]
               for k in ("int vars", "order vars", "constraints")}
    for n, (case, solver) in enumerate(wanted):
        mine = [a for name, a in plt.saved if solver in name and re.search(rf"case{case}(\D|$)", name)]
        if len(mine) != 1:
            ctx.fail(f"{what}: {len(mine)} figures of case {case}, {solver}: {[x for x, _ in plt.saved]}")
        axes = mine[0]
        here = f"{what}, case {case}, {solver}"
        obj, comp, qpu = [], [], []

        def colours(r, m):
            return ["green" if r[i]["feasible"] is True else "red" for i in range(m)]

        for t in times:
            r = files[f"results{t}__cqm_{case}_Integer.pkl"]
            m = r["samples"]
            x = list(range(m))
            c = colours(r, m)
            words = (r"CQM", rf"(^|\D){t}($|\D)")
            obj.append(([r[i]["objective"] * r["d_max"] for i in x], c, words, x))
            comp.append(([r[i]["info"]["run_time"] / 1e6 for i in x], c, words, x))
            qpu.append(([r[i]["info"]["qpu_access_time"] / 1e6 for i in x], c, words, x))
        r = files[f"results_{solver}__{case}_Integer.pkl"]
        short = re.escape(solver.replace("_CMD", "").strip())
        c = colours(r, m)
        words = (short, "exact") if lim else (short,)
        obj.append(([r[i]["objective"] for i in x], c, words, x))
        comp.append(([r[i]["comp_time_seconds"] for i in x], c, words, x))
        qpu.append(([0.0] * m, None, words, x))
        for k, key in (("int vars", "int_vars"), ("order vars", "order_vars"), ("constraints", "constraints")):
            if n >= len(printed[k]) or not near(printed[k][n], mean([r[i][key] for i in x])):
                ctx.fail(f"{here}: the printed means of {k} are {printed[k]}")
        if lim:
            r = files[f"results_{solver}_ilp_t_lim5.0__{case}_Integer.pkl"]
            words = (short, "limit")
            obj.append(([r[i]["objective"] for i in x], None, words, x))
            comp.append(([r[i]["comp_time_seconds"] for i in x], None, words, x))
            qpu.append(([0.0] * m, None, words, x))
        judge_axis(ctx, axis(ctx, axes, "objective"), obj, here + ", objective")
        judge_axis(ctx, axis(ctx, axes, "comp"), comp, here + ", computing time")
        judge_axis(ctx, axis(ctx, axes, "qpu"), qpu, here + ", QPU time")
        title = " ".join(str(a.texts.get("title", "")) for a in axes)
        if not re.search(rf"\b{case}\b", title):
            ctx.fail(f"{here}: title {title!r}")
        ctx.state()
        ctx.trace()
        ctx.outcome((case, solver, repr(obj)))


def compare_files(n, times, solvers, cases, lim, pattern):
    """results that all differ; pattern: feasibility, one bit after the other"""
    bit = itertools.cycle(pattern)
    value = itertools.count(1)
    files = {}
    for case in cases:
        for t in times:
            r = {"method": "cqm", "d_max": 40 - case, "case": case, "samples": n}
            for i in range(n):
                v = next(value)
                r[i] = {"objective": v / 8, "feasible": next(bit), "info": {"run_time": v * 1000500, "qpu_access_time": v * 700}}
            files[f"results{t}__cqm_{case}_Integer.pkl"] = r
        for solver in solvers:
            for name in (f"results_{solver}__{case}", f"results_{solver}_ilp_t_lim5.0__{case}"):
                r = {"method": solver, "d_max": 40 - case, "case": case, "samples": n}
                for i in range(n):
                    v = next(value)
                    r[i] = {"objective": v * 1.5 + 1000, "feasible": next(bit), "comp_time_seconds": v / 16, "order_vars": v + 3,
                            "int_vars": v + 5, "constraints": 2 * v}
                files[name + "_Integer.pkl"] = r
    return files


# ------------------------------------------------------------------ sweeps over the time limit

def fit(x, y):
    mx, my = mean(x), mean(y)
    a = sum((p - mx) * (q - my) for p, q in zip(x, y)) / sum((p - mx) ** 2 for p in x)
    return a, my - a * mx


def judge_sweep(ctx, files, rev, case, tmins, optimum, plot, what):
    import matplotlib.pyplot as plt

    plt.saved.clear()
    plt.close()
    with ctx.code(f"{what}: plotting"):
        plot("cqm", case, list(tmins))
    if len(plt.saved) != 1 or case not in plt.saved[0][0]:
        ctx.fail(f"{what}: figures {[n for n, _ in plt.saved]}")
    judge_sweep_figure(ctx, files, rev, case, tmins, optimum, plt.saved[0][1], what)


def judge_sweep_figure(ctx, files, rev, case, tmins, optimum, axes, what):
    obj, comp, qpu = [], [], []
    for t in tmins:
        r = list(files[f"cqm{t}_{case}_Integer.pkl"].values())
        obj.append([40 * x["objective"] for x in r])
        comp.append([x["info"]["run_time"] / 1e6 for x in r])
        qpu.append([x["info"]["qpu_access_time"] / 1e6 for x in r])
    tm = list(tmins)
    x = [mean(v) for v in comp] if rev else tm
    y = [mean(v) for v in obj]
    a, b = fit([math.log(v) for v in x], y)

    def check(axis_, expected, constant):
        for s in axis_.series:
            if constant and re.search("CPLEX", s.label or "") and len(set(s.y)) == 1:
                continue
            if not any(same_list(s.x, e[0]) and same_list(s.y, e[1]) for e in expected):
                ctx.fail(f"{what}: the series {s.label!r} {list(zip(s.x, s.y))} is none of {expected}"[:1500])
            ctx.step()
        for e in expected:
            if not any(same_list(s.x, e[0]) and same_list(s.y, e[1]) for s in axis_.series):
                ctx.fail(f"{what}: {e} is not drawn")

    top = axis(ctx, axes, "objective")
    expected = [(x, y), (x, [min(v) for v in obj]), (x, [max(v) for v in obj]), (x, [a * math.log(v) + b for v in x]),
                (tm, [optimum] * len(tm))]
    single = [s for s in top.series if rev and len(s.x) == 1]
    for s in single:
        if not near(s.y[0], optimum):
            ctx.fail(f"{what}: the exact solution is drawn at {s.y[0]} instead of {optimum}")
    top.series = [s for s in top.series if s not in single]
    if rev and not single:
        ctx.fail(f"{what}: the exact solution is not drawn")
    check(top, expected, False)
    means = [s for s in top.series if s.label and "mean" in s.label]
    if not any(same_list(s.y, y) for s in means) or any(not same_list(s.y, y) for s in means):
        ctx.fail(f"{what}: the series labelled as mean is {[s.y for s in means]} instead of {y}")
    if not rev:
        check(axis(ctx, axes, "comp"), [(tm, [mean(v) for v in comp])], True)
        check(axis(ctx, axes, "qpu"), [(tm, [min(v) for v in qpu]), (tm, [max(v) for v in qpu])], False)
    ctx.state()
    ctx.trace()
    ctx.outcome((what, tuple(y)))


def optimum(ctx, case):
    """the objective of the recorded exact solution"""
    d = load(os.path.join(ctx.repo, "solutions_quantum", "data4diagrams", f"PULP_CBC_CMD_{case}_Integer.pkl"))
    return 40 * sum(float(x.get("impact_to_objective") or 0) for t in d.values() for x in t.values())


# ------------------------------------------------------------------ instances

def examine(inst, ctx):
    kind = inst[0]
    if kind in ("one table", "two tables", "lists"):
        with ctx.code("loading visualise_statistics.py"):
            g = script(ctx, "solutions_quantum", "data4diagrams", "visualise_statistics.py")
        if kind == "lists":
            judge_lists(ctx, g, inst[1])
        elif kind == "one table":
            for more in itertools.product(ENTRIES, repeat=2):
                judge_delays(ctx, g, [table(inst[1] + more)])
        else:
            first = inst[1]
            for more in itertools.product((NOTHING, 0, 4) if ctx.tier == "quick" else (NOTHING, EMPTY, 0, 4), repeat=4):
                judge_delays(ctx, g, [table(first), table(more)])
        ctx.count("tables")
    elif kind == "stats script":
        files = different_schedules()
        with folder():
            for n, v in files.items():
                dump(n, v)
            judge_stats_script(ctx, files)
    elif kind == "compare":
        _, lim, n, times, solvers, cases = inst
        with ctx.code("loading the plots"):
            g = script(ctx, "results_KO_GLC", "fast_plot_lim.py" if lim else "fast_plot.py")
        bits = n * (len(times) + 1) if len(cases) == 1 else 6
        with folder():
            for pattern in itertools.product((True, False), repeat=bits):
                files = compare_files(n, times, solvers, cases, lim, pattern)
                for k, v in files.items():
                    dump(k, v)
                judge_compare(ctx, files, lim, times, solvers, cases, g["plotting_comparisons"])
        ctx.count("comparisons")
    elif kind == "sweep":
        _, rev, case, n, tmins = inst
        with ctx.code("loading the plots"):
            g = script(ctx, "solutions_quantum", "tmin_plot_rev.py" if rev else "tmin_plot.py")
        best = optimum(ctx, case)
        with folder():
            for orders in itertools.product(itertools.permutations(range(n)), repeat=len(tmins)):
                for bad in itertools.chain((None,), itertools.product(range(len(tmins)), range(n))):
                    if bad and any(o != tuple(range(n)) for o in orders):
                        continue
                    files = {}
                    for k, (t, order) in enumerate(zip(tmins, orders)):
                        files[f"cqm{t}_{case}_Integer.pkl"] = {
                            i + 1: {"objective": 5 + 2 * k * k + o / 4, "feasible": bad != (k, i),
                                    "info": {"run_time": 1000000 * (t + o), "qpu_access_time": 1000 * (k * 5 + o + 1)}}
                            for i, o in enumerate(order)}
                    for name, v in files.items():
                        dump(name, v)
                    what = f"{'tmin_plot_rev' if rev else 'tmin_plot'}, {case}, limits {tmins}, orders {orders}"
                    if bad:
                        ctx.refused(lambda: g["plotting_objective"]("cqm", case, list(tmins)), what + f", infeasible {bad}")
                        ctx.state()
                        ctx.count("refused")
                    else:
                        judge_sweep(ctx, files, rev, case, tmins, best, g["plotting_objective"], what)
        ctx.count("sweeps")
    else:
        shipped(ctx, inst[1])
        ctx.count("shipped")
    ctx.sample({"instance": repr(inst)})


def shipped(ctx, name):
    import matplotlib.pyplot as plt

    sub = "results_KO_GLC" if name.startswith("compare") else "solutions_quantum"
    base = os.path.join(ctx.repo, sub, *(["data4diagrams"] if name == "stats" else []))
    names = [n for n in sorted(os.listdir(base)) if n.endswith(".pkl")]
    with folder() as (here, _):
        for n in names:
            os.symlink(os.path.join(base, n), os.path.join(here, n))
        if name == "stats":
            return judge_stats_script(ctx, {n: load(os.path.join(base, n)) for n in names})
        if name.startswith("compare"):
            lim = name == "compare_lim3"
            with ctx.code("loading the plots"):
                g = script(ctx, "results_KO_GLC", "fast_plot_lim.py" if lim else "fast_plot.py")
            files = {n: load(os.path.join(base, n)) for n in names if "_3_" in n}
            return judge_compare(ctx, files, lim, (5, 20), ("CPLEX_CMD",), (3,), g["plotting_comparisons"])
        rev = name == "sweep_rev"
        with ctx.code("running the sweep"):
            script(ctx, "solutions_quantum", "tmin_plot_rev.py" if rev else "tmin_plot.py", main=True)
        figures = list(plt.saved)
        if len(figures) != 2:
            ctx.fail(f"figures {[n for n, _ in figures]}")
        for case in ("case7", "case9"):
            mine = [a for n, a in figures if case in n]
            if len(mine) != 1:
                ctx.fail(f"figures of {case}: {[n for n, _ in figures]}")
            files = {n: load(os.path.join(base, n)) for n in names if case in n}
            tmins = sorted(int(re.match(r"cqm(\d+)_", n).group(1)) for n in files)
            judge_sweep_figure(ctx, files, rev, case, tmins, optimum(ctx, case), mine[0], f"shipped sweep of {case}")


def finish(ctx, tier):
    c = ctx.counts
    if c.get("shipped") != 5 or not c.get("refused") or not c.get("sweeps") or not c.get("comparisons") or not c.get("tables"):
        return f"the exploration is vacuous: {c}"
    return None
