"""C32: every step answers alike in any history and leaves its inputs as they were.

The histories form a tree.  A node is a process that has done the steps of its
history; its children are forks of it, so that whatever the code keeps to itself
between two calls (defaults, caches, counters, objects handed out before) is part
of the state, and two histories never see each other.
"""
import contextlib
import datetime
import gc
import io
import itertools
import os
import pickle
import signal
import sys
import traceback

from mc import milp, problems, small_lp, world

PROPERTY = "C32"
DEPTH = {"quick": 3, "thorough": 4}
BOUND = {
    "quick": "two sets of three trains with the same train numbers and block names on two networks, and two dispatching problems "
             "of the same trains: every history of three steps out of 17 that prepare data and every history of three steps "
             "out of 22 that build, convert, solve, read and report problems; two published timetables: every history of "
             "three steps out of 11 that draw them",
    "thorough": "as quick with every history of four steps",
}
ASSUMPTIONS = ["completing the timetables it is given is the purpose of update_all_timetables; solving a problem it has built "
               "itself is that of solve_linear_problem; no other input may change",
               "the names of constraints within a problem are free"]
SECONDS = 800
D_MAX = (4, 1)
T_REF = datetime.datetime(2020, 1, 1, 16, 0)
PD = ({k: i + 2 for i, k in enumerate(small_lp.KINDS)}, {k: 1.5 for k in small_lp.KINDS})
for _i, _p in enumerate(PD):
    _p.update(objective=1 + _i, occupation=4)


# ------------------------------------------------------------------ steps on data

def nets():
    one = world.net("single")
    two = world.Net("swapped", {"A": ["A2", "A1"], "B": ["C1"], "C": ["B2", "B1"]}, one.edges,
                    [(2.2 + 0.3 * i, 3.1 + 0.2 * i, 1.4 + 0.1 * i, 0.6 + 0.4 * i) for i in range(len(one.edges))])
    return one, two


def clock(n):
    return f"{16 + n // 60}:{n % 60:02}"


def trains(w):
    def cells(route, start, every, turn=0):
        out = {}
        for i, b in enumerate(route):
            if len(b) == 2 and b[0] in "ABC":
                out[i] = {"Arr": clock(start + every * i), "Dep": clock(start + every * i + 1)}
        if turn:
            out[len(route) - 1]["Turnaround_time_minutes"] = turn
        return out

    routes = (
        {41: (("A1", "s1", "s2", "B1", "t1", "C1"), 2, 4), 419: (("C1", "t1", "B2", "s2", "s1", "A2"), 40, 0),
         410: (("A2", "s1", "s2", "B2", "t1", "C1"), 9, 0)},
        {41: (("A2", "s1", "s2", "B2", "t1", "C1"), 7, 6), 419: (("C1", "t1", "B1"), 33, 0),
         410: (("C1", "t1", "B2", "s2", "s1", "A1"), 1, 0)},
    )[w]
    kinds = {41: ("KS - Os", "R"), 419: ("KS - OsP", "R"), 410: ("IC - EIC", "IC")}
    if w:
        kinds[41], kinds[410] = ("IC - TLK", "IC"), ("PR - R", "R")
    return [world.train(j, r, category=kinds[j][0], speed=kinds[j][1], cells=cells(r, t, 3 + w, turn))
            for j, (r, t, turn) in routes.items()]


class Data:
    """the shared inputs of the steps on data"""

    def __init__(self):
        self.net = nets()
        self.raw = [world.read_csv(trains(w)) for w in (0, 1)]
        self.table = [n.table() for n in self.net]
        self.stations = [dict(n.stations) for n in self.net]
        self.initial = [{"41_A": 3, "410_A": -2, "419_C": 7}, {"41_A": 5, "410_B": 0, "4101_B": 1}]
        self.skip = [{41: "C", 419: "A", 410: "C"}, {41: "B", 410: "A"}]
        self.given = [{"pass": {"41_A_B": 2}, "stop": {}, "prep": {}, "headway": {}, "res": 1 + w} for w in (0, 1)]
        self.chosen = [["A", "B"], ["C", "A"]]
        self.trains = [None, None]

    def begin(self, which=(0, 1)):
        for w in which:
            self.trains[w] = self.read(w)

    @staticmethod
    def needs(step):
        return (step[1],)

    def inputs(self, w):
        return plain((self.raw[w], self.table[w], self.stations[w], self.initial[w], self.skip[w], self.chosen[w],
                      self.given[w]))

    def made(self, w):
        return plain(self.trains[w])

    def read(self, w):
        import data_formatting.data_formatting as df

        return df.update_all_timetables(df.timetable_to_train_dict(self.raw[w]), self.table[w], self.stations[w])

    def update(self, w):
        import data_formatting.data_formatting as df

        return df.update_all_timetables(self.trains[w], self.table[w], self.stations[w])

    def sets(self, w):
        import helpers

        return helpers.make_train_set(self.trains[w], self.stations[w], self.table[w], self.skip[w])

    def taus(self, w):
        import helpers

        return helpers.make_taus(self.trains[w], self.stations[w], 1)

    def times(self, w, t, given=False):
        import helpers

        more = {"taus": self.given[w]} if given else {}
        return helpers.make_timetable(self.trains[w], self.stations[w], self.skip[w], t, **more)

    def delay(self, w):
        import data_formatting.data_formatting as df

        return df.add_delay(self.initial[w], 41, 5)

    def ask(self, w):
        import data_formatting.data_formatting as df

        d, st = self.trains[w], self.stations[w]
        out = [df.get_skip_stations(d), df.get_Paths(d), df.get_trains_at_station(d, st), df.get_jround(d, st)]
        for j in d:
            out.append(df.get_arr_dep_vals(df.train_time_table(d, j)))
            for s in st:
                out.append(df.blocks_list_4station(d[j][1], s, st))
                out.append(df.is_train_passing_thru_station(d[j][1], s))
        return out

    def some(self, w):
        import data_formatting.data_formatting as df

        d, st = self.trains[w], self.stations[w]
        two = self.chosen[w]
        return (df.jd(d, st, two), df.josingle(d, st, two), df.jtrack(d, st, two), df.jswitch(d, st, self.table[w], two),
                df.get_trains_pair9(d))

    def run(self, step):
        return plain(getattr(self, step[0])(*step[1:]))


DATA_STEPS = [(k, w) for k in ("read", "update", "sets", "some", "taus", "delay", "ask") for w in (0, 1)] + [
    ("times", 0, "16:00"), ("times", 0, "15:30", True), ("times", 1, "16:00", True)]


# ------------------------------------------------------------------ steps on problems

class Models:
    """the shared inputs of the steps on problems"""

    def __init__(self):
        paths = {1: ["A", "B", "C"], 2: ["A", "B", "C"], 3: ["C", "B", "A"]}
        back = {1: ["C", "B", "A"], 2: ["B", "A"], 3: ["A", "B"]}
        self.sets = [
            problems.sets(paths, Jd=problems.lines(paths), Josingle={("A", "B"): [[1, 3]]}, Jround={"C": [[2, 3]]},
                          Jtrack={"B": [[1, 2]]}, Jswitch={"A": [{1: "out", 3: "in"}]}),
            problems.sets(back, Jd=problems.lines(back), Josingle={("B", "A"): [[1, 3], [2, 3]]},
                          Jtrack={"A": [[1, 2]]}, Jswitch={"B": [{1: "out", 2: "out"}]}),
        ]
        self.times = [
            problems.times(self.sets[0], {1: 0, 2: 1, 3: 5}, 2, weights={"1_A": 1.0, "2_B": 0.5, "3_C": 2.0},
                           schedule={"1_A": 0, "1_B": 6, "2_A": 1, "3_C": 5, "3_B": 8}),
            problems.times(self.sets[1], {1: 2, 2: 0, 3: 1}, 3, weights={"1_B": 0.25, "3_A": 1.0}, headway=1),
        ]
        self.penalties = [dict(p) for p in PD]
        self.prob = [None, None]
        self.values = [None, None]
        self.samples = [None, None]

    def begin(self, which=(0, 1)):
        import dimod

        for k in which:
            self.prob[k] = self.build(k, D_MAX[k])
            names = [v.name for v in self.prob[k].variables()]
            for i, v in enumerate(self.prob[k].variables()):
                v.varValue = (i + k) % 2
            self.values[k] = {n: (i // 2 + k) % 2 for i, n in enumerate(names)}
            answers = [{n: (i >> m) & 1 for i, n in enumerate(names)} for m in (0, 1, 2)]
            self.samples[k] = dimod.SampleSet.from_samples(answers, "INTEGER", [3.0, 1.0, 2.0])

    @staticmethod
    def needs(step):
        return () if step[0] in ("build", "delayed", "solve") else (0, 1)

    def inputs(self, k):
        return plain((self.sets[k], self.times[k], self.penalties[k]))

    def made(self, k):
        return plain((self.prob[k], self.values[k], self.samples[k]))

    def rs(self):
        import railway_solvers.railway_solvers as rs

        return rs

    def build(self, k, d_max, cat="Integer"):
        return self.rs().create_linear_problem(self.sets[k], self.times[k], d_max, cat)

    def delayed(self, k):
        """the timetable after a disturbance, as the scripts make it"""
        import data_formatting.data_formatting as df

        tt = dict(self.times[k])
        tt["initial_conditions"] = df.add_delay(tt["initial_conditions"], 1, 6)
        return self.rs().create_linear_problem(self.sets[k], tt, 2, "Integer")

    def solve(self, k, d_max):
        import pulp.pulp

        pulp.pulp.set_backend(milp.solve)
        try:
            return self.rs().solve_linear_problem(self.sets[k], self.times[k], d_max)
        finally:
            pulp.pulp.set_backend(None)

    def cqm(self, k):
        return self.rs().convert_to_cqm(self.prob[k])

    def bqm(self, k, p):
        bqm, qubo, _ = self.rs().convert_to_bqm(self.prob[k], self.penalties[p])
        return bqm, qubo

    def interpret(self, k):
        import dimod

        bqm, _, interpreter = self.rs().convert_to_bqm(self.prob[k], self.penalties[k])
        bits = sorted(bqm.variables)
        answers = [{b: (i * m // 3 + m) % 2 for i, b in enumerate(bits)} for m in (1, 2, 3)]
        return interpreter(dimod.SampleSet.from_samples_bqm(answers, bqm))

    def results(self, k):
        rs = self.rs()
        found = rs.get_results(self.samples[k], prob=self.prob[k])
        return found, rs.get_best_feasible_sample(found)

    def report(self, k, outside):
        import helpers

        more = {"outside_data": self.values[k]} if outside else {}
        return helpers.print_optimisation_results(self.prob[k], self.times[k], self.sets[k], self.times[k]["tau"],
                                                  self.sets[k]["skip_station"], D_MAX[k], T_REF, **more)

    def count(self, k):
        import helpers

        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            helpers.check_count_vars(self.prob[k])
        return helpers.count_vars(self.prob[k]), text.getvalue()

    def quantum(self, k, method):
        import dimod
        import dwave.system as ds
        import helpers
        import neal

        def sampleset(model):
            answer = [{v: (i + m) % 2 for i, v in enumerate(sorted(model.variables))} for m in (0, 1)]
            if isinstance(model, dimod.ConstrainedQuadraticModel):
                ss = dimod.SampleSet.from_samples(answer, "INTEGER", [model.objective.energy(s) for s in answer])
            else:
                ss = dimod.SampleSet.from_samples_bqm(answer, model)
            ss.info = {"timing": 17}
            return ss

        ds.calls.clear()
        neal.calls.clear()
        ds.backend = lambda kind, model, params: sampleset(model)
        neal.backend = lambda bqm, params: sampleset(bqm)
        try:
            found = dict(helpers.solve_on_quantum(self.prob[k], method, self.penalties[k], 5))
        finally:
            ds.backend = neal.backend = None
        found.pop("comp_time_seconds")
        return found

    def run(self, step):
        return plain(getattr(self, step[0])(*step[1:]))


MODEL_STEPS = (
    [("build", 0, 1), ("build", 0, 3), ("build", 1, 1), ("build", 1, 3, "Continuous"), ("delayed", 0),
     ("solve", 0, 3), ("solve", 1, 4), ("cqm", 0), ("cqm", 1), ("bqm", 0, 0), ("bqm", 0, 1), ("bqm", 1, 0),
     ("interpret", 0), ("interpret", 1), ("results", 0), ("results", 1), ("report", 0, False), ("report", 0, True),
     ("report", 1, False), ("count", 0), ("quantum", 0, "cqm"), ("quantum", 1, "sim")])


# ------------------------------------------------------------------ steps on diagrams

class Diagrams:
    """the shared inputs of the steps on diagrams: published timetables of two trains"""

    def __init__(self):
        def at(n):
            return T_REF + datetime.timedelta(minutes=n)

        self.plan = [
            {"KTC": {"departure": at(3), "conflicted_departure": at(1), "secondary delay": 2, "impact_to_objective": 0.5},
             "KO": {"arrive": at(8), "conflicted_arrive": at(6), "departure": at(9), "conflicted_departure": at(7),
                    "secondary delay": 2, "impact_to_objective": 0.0},
             "Bry": {"arrive": at(14), "conflicted_arrive": at(12)}},
            {"KO": {"arrive": at(20), "conflicted_arrive": at(12), "departure": at(22), "conflicted_departure": at(13),
                    "secondary delay": 9, "impact_to_objective": 1.5},
             "KZ": {"departure": at(15), "conflicted_departure": at(10), "secondary delay": 5, "impact_to_objective": 0.0},
             "KO(STM)": {"arrive": at(17), "conflicted_arrive": at(11), "departure": at(18), "conflicted_departure": at(11),
                         "secondary delay": 7, "impact_to_objective": 0.0}},
        ]
        self.exceptions = [{"KO(STM)"}, {"KO", "Bry"}]
        self.lines = [{"137", "139"}, {"138"}]
        self.train = [None, None]

    @staticmethod
    def parts():
        import railway_lines
        import train_utils

        return railway_lines, train_utils

    def begin(self, which=(0, 1)):
        for k in which:
            self.train[k] = self.parts()[1].kdtrain2trainpath(41 + k, self.plan[k])

    @staticmethod
    def needs(step):
        return (step[1],)

    def inputs(self, k):
        return plain((self.plan[k], self.exceptions[k], self.lines[k]))

    def made(self, k):
        t = self.train[k]
        return plain((t.number, t.status, t.route, t.path))

    def path(self, k, *status):
        t = self.parts()[1].kdtrain2trainpath(41 + k, self.plan[k], *status)
        return t.number, t.status, t.route, t.path

    def segment(self, k, excepted):
        lines, _ = self.parts()
        more = {"exceptions": self.exceptions[k]} if excepted else {}
        return [(s, lines.train_on_segment(self.train[k], s, **more),
                 [lines.station_on_segment(x, s, **more) for x in self.train[k].route])
                for s in ("137139GLYTy", "137138GLYKZ", "138139KZTY")]

    def place(self, k):
        lines, _ = self.parts()
        route = self.train[k].route
        return ([lines.station_on_lines(x) for x in route], lines.route_on_lines(route, self.lines[k]),
                [lines.station2km(x, "138139KZTY" if k else "137139GLYTy") for x in route])

    def text(self, k):
        return str(self.train[k]), repr(self.train[k])

    def run(self, step):
        return plain(getattr(self, step[0])(*step[1:]))


DIAGRAM_STEPS = [("path", 0), ("path", 0, "conflicted"), ("path", 1), ("path", 1, "conflicted"), ("segment", 0, False),
                 ("segment", 0, True), ("segment", 1, False), ("segment", 1, True), ("place", 0), ("place", 1), ("text", 0)]

SIDES = {"diagrams": (Diagrams, DIAGRAM_STEPS), "models": (Models, MODEL_STEPS), "data": (Data, DATA_STEPS)}


# ------------------------------------------------------------------ answers as plain values

def plain(x):
    """the value of an answer, without the names of constraints and the order of keys"""
    import dimod
    import pandas as pd
    import pulp

    if x is None or isinstance(x, (str, bytes, bool)):
        return x
    if isinstance(x, (int, float)) or type(x).__module__ == "numpy" and getattr(x, "shape", None) == ():
        x = float(x)
        return "nan" if x != x else round(x, 9)
    if isinstance(x, pd.DataFrame):
        return ("table", tuple(x.columns), tuple(tuple(plain(v) for v in row) for row in x.values.tolist()))
    if isinstance(x, pulp.LpProblem):
        return ("problem", x.sense, tuple((v.name, plain(v.lowBound), plain(v.upBound), v.cat, plain(v.varValue))
                                          for v in sorted(x.variables(), key=lambda v: v.name)),
                terms(x.objective),
                tuple(sorted((terms(c), c.sense) for c in x.constraints.values())))
    if isinstance(x, dimod.BinaryQuadraticModel):
        return ("quadratic", tuple(sorted((str(v), plain(a)) for v, a in x.linear.items())), couplings(x), plain(x.offset))
    if isinstance(x, dimod.ConstrainedQuadraticModel):
        return ("constrained", tuple(sorted((str(v), plain(x.lower_bound(v)), plain(x.upper_bound(v)), str(x.vartype(v)))
                                            for v in x.variables)),
                side(x.objective), tuple(sorted((side(c.lhs), str(c.sense), plain(c.rhs)) for c in x.constraints.values())))
    if isinstance(x, dimod.SampleSet):
        return ("samples", tuple((tuple(sorted((str(v), plain(a)) for v, a in d.sample.items())), plain(d.energy))
                                 for d in x.data(sorted_by=None)))
    if hasattr(x, "items"):
        return ("dict", tuple(sorted(((plain(k), plain(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((plain(v) for v in x), key=repr)))
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        return tuple(plain(v) for v in x)
    return repr(x)


def terms(e):
    return tuple(sorted((v.name, plain(a)) for v, a in e.items() if a)), plain(e.constant)


def couplings(x):
    return tuple(sorted((tuple(sorted((str(u), str(v)))), plain(a)) for (u, v), a in x.quadratic.items() if a))


def side(e):
    return (tuple(sorted((str(v), plain(a)) for v, a in e.linear.items() if a)), couplings(e), plain(e.offset))


# ------------------------------------------------------------------ the tree of histories

def fork(job):
    """what job() returns in a fork of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            gc.disable()  # short-lived: no copies of the pages shared with the parent
            try:
                out = job()
            except BaseException as e:
                out = {"error": f"{type(e).__name__}: {e} ({''.join(traceback.format_tb(e.__traceback__)[-1:]).strip()})"}
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f, -1)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else {"error": "the process of the history ended without an answer"}


def fresh(name, steps):
    """{step: answer} of every step alone, and the inputs (0 and 1) before any step"""
    world_, _ = SIDES[name]
    out = {}
    for step in [0, 1] + list(steps):
        def job():
            s = world_()
            if step in (0, 1):
                given = s.inputs(step)
                s.begin((step,))
                return {"answer": (given, s.made(step))}
            s.begin(s.needs(step))
            return {"answer": s.run(step)}

        out[step] = fork(job)
    return out


_alone = {}


def instances(tier):
    for name, (_, steps) in SIDES.items():
        for a, b in itertools.product(range(len(steps)), repeat=2):
            yield (name, a, b)


def examine(inst, ctx):
    # loading the code is not a step
    import data_formatting.data_formatting  # noqa: F401
    import helpers  # noqa: F401
    import railway_solvers.railway_solvers  # noqa: F401

    drawing = os.path.join(ctx.repo, "solutions_quantum", "data4diagrams")
    if drawing not in sys.path:
        sys.path.append(drawing)
    import railway_lines  # noqa: F401
    import train_utils  # noqa: F401

    name, a, b = inst
    world_, steps = SIDES[name]
    if name not in _alone:
        _alone[name] = fresh(name, steps)
    alone = _alone[name]
    for step, got in alone.items():
        if "error" in got:
            ctx.fail(f"the step {step} alone raised {got['error']}")
    depth = DEPTH[ctx.tier]

    def go(shared, history, step):
        """does the step and returns what is wrong"""
        try:
            got = shared.run(step)
        except BaseException as e:
            return f"{step} after {history} raised {type(e).__name__}: {e}"
        if got != alone[step]["answer"]:
            return f"{step} after {history} gives {difference(got, alone[step]['answer'])}"
        for k in (0, 1):
            now = shared.inputs(k), shared.made(k)
            if now != alone[k]["answer"]:
                return f"{step} after {history} changed its inputs: {difference(now, alone[k]['answer'])}"
        return None

    def walk(shared, history, tally):
        """every continuation of the history, each in a process of its own"""
        if len(history) == depth:
            return None
        for step in steps:
            def job():
                wrong = go(shared, history, step)
                t = {"steps": 1, "histories": 1, "complete": int(len(history) + 1 == depth)}
                return wrong or walk(shared, history + (step,), t), t

            out = fork(job)
            if isinstance(out, dict):
                return f"{step} after {history}: {out['error']}"
            for k, v in out[1].items():
                tally[k] += v
            if out[0]:
                return out[0]
        return None

    def root():
        shared = world_()
        shared.begin()
        # the history of the first step alone is counted once
        tally = {"steps": 0, "histories": -int(b > 0), "complete": 0}
        history = ()
        for step in (steps[a], steps[b]):
            wrong = go(shared, history, step)
            tally["steps"] += 1
            tally["histories"] += 1
            if wrong:
                return wrong, tally
            history += (step,)
        return walk(shared, history, tally), tally

    out = fork(root)
    if isinstance(out, dict):
        ctx.fail(f"{steps[a]}, {steps[b]}: {out['error']}")
    wrong, tally = out
    ctx.state(tally["histories"])
    ctx.step(tally["steps"])
    ctx.trace(tally["complete"])
    ctx.count(name, tally["histories"])
    for step in (steps[a], steps[b]):
        ctx.outcome((name, step, alone[step]["answer"]))
    if wrong:
        ctx.fail(wrong)
    ctx.sample({"side": name, "first steps": repr([steps[a], steps[b]]), "histories": tally["histories"]})


def difference(got, want):
    """the first place where two plain values differ"""
    where = ""
    while isinstance(got, tuple) and isinstance(want, tuple) and len(got) == len(want):
        i = next(i for i, (x, y) in enumerate(zip(got, want)) if x != y)
        where += f"[{i}]"
        got, want = got[i], want[i]
    return f"{str(got)[:300]} instead of {str(want)[:300]} at {where or 'the top'}"


def finish(ctx, tier):
    if ctx.violations:
        return None
    for name, (_, steps) in SIDES.items():
        n = len(steps)
        want = sum(n ** k for k in range(1, DEPTH[tier] + 1))
        if ctx.counts.get(name) != want:
            return f"{ctx.counts.get(name)} histories of {name} instead of {want}"
    return None
