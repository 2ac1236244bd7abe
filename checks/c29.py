"""C29: each scripted study case solves the disturbance it names and files its result."""
import atexit
import collections
import contextlib
import datetime
import hashlib
import io
import itertools
import os
import pickle
import runpy
import shutil
import sys
import tempfile
import time

from checks import c26
from mc import lpx, recorded, ref_lp, shipped, traffic

PROPERTY = "C29"
SOLVERS = ("PULP_CBC_CMD", "GUROBI_CMD", "CPLEX_CMD")
METHODS = ("sim", "real", "bqm", "cqm")
CATS = ("Integer", "Continuous")
KINDS = ("minimal_span", "single_line", "minimal_stay", "track_occupation", "switch", "circulation")
BOUND = {
    "quick": "solve_real_problem.py: 10 cases x (3 linear solvers x 2 categories x solving with and without publishing; 4 "
             "methods x 2 categories x solving and publishing x 2 sets of limit, penalty and number of runs); "
             "solve_KO_GLC_problems.py: 3 cases x 12 disturbances x (3 linear solvers with and without time limit, 4 methods, "
             "a second limit and category); wisla_problems.py: 3 linear solvers x 2 limits x publishing, 4 methods x 2 limits "
             "x publishing; every run in a directory that holds another result under the name of every other run",
    "thorough": "as quick with all categories, limits and methods of solve_KO_GLC_problems.py",
}
ASSUMPTIONS = ["a script keeps no state but the files of its directory, so all sequences follow from one run each among "
               "the results of all others",
               "the solvers are replaced by recording stand-ins that answer with known values"]
SECONDS = 800
REAL_REF = datetime.datetime(2020, 1, 1, 16, 0)
WISLA_REF = datetime.datetime(2020, 1, 1, 8, 0)


# --- the runs of the scripts: (script, options)
def real_runs(case):
    for solver, cat, show in itertools.product(SOLVERS, CATS, (0, 1)):
        yield {"solve_lp": solver, "category": cat, "show": show}
    for method, cat, show, (min_t, penalty, runs) in itertools.product(
            METHODS, CATS, (0, 1), ((5, 1.0, 1), (20, 2.5, 3))):
        yield {"solve_quantum": method, "category": cat, "show": show, "min_t": min_t, "penalty": penalty, "runs": runs}


def generic_runs(tier):
    if tier == "thorough":
        for solver, limit, cat in itertools.product(SOLVERS, (0, 5.0), CATS):
            yield {"solve_lp": solver, "time_limit": limit, "category": cat}
        for method, min_t, cat in itertools.product(METHODS, (5, 20), CATS):
            yield {"solve_quantum": method, "min_t": min_t, "category": cat}
        return
    for solver, limit in itertools.product(SOLVERS, (0, 5.0)):
        yield {"solve_lp": solver, "time_limit": limit, "category": "Integer"}
    for method in METHODS:
        yield {"solve_quantum": method, "min_t": 5, "category": "Integer"}
    yield {"solve_lp": "PULP_CBC_CMD", "time_limit": 0, "category": "Continuous"}
    yield {"solve_quantum": "cqm", "min_t": 20, "category": "Integer"}


def wisla_runs():
    for solver, limit, show in itertools.product(SOLVERS, (0, 5.0), (0, 1)):
        yield {"solve_lp": solver, "time_limit": limit, "show": show}
    for method, min_t, show in itertools.product(METHODS, (5, 20), (0, 1)):
        yield {"solve_quantum": method, "min_t": min_t, "show": show}


def solution_file(script, case, o):
    """the file a solution is kept in, or None"""
    if script == "wisla":
        if "solve_quantum" not in o:
            return None
        p = o["min_t"] if o["solve_quantum"] in ("bqm", "cqm") else ""
        return f"solutions_quantum/wisla/{o['solve_quantum']}_wisla{p}_case1.pkl"
    if script == "generic":
        p = o["min_t"] if o.get("solve_quantum") in ("bqm", "cqm") else ""
        limit = f"_ilp_t_lim{o['time_limit']}" if o.get("time_limit") else ""
        return (f"results_KO_GLC/results{p}_{o.get('solve_lp', '')}{limit}_{o.get('solve_quantum', '')}_{case}_"
                f"{o['category']}.pkl")
    if "solve_quantum" not in o:
        return None
    m = o["solve_quantum"]
    name = {"cqm": f"cqm{o['min_t']}", "bqm": f"bqm{o['min_t']}_{o['penalty']}"}.get(m, f"{m}_{o['penalty']}")
    return f"solutions_quantum/{name}_case{case}_{o['category']}.pkl"


def schedule_file(script, case, o):
    """the file a published timetable is kept in, or None"""
    if not o.get("show"):
        return None
    if script == "wisla":
        name = o.get("solve_lp")
        return ("solutions_quantum/wisla/data4diagrams/" +
                (f"{name}_wisla_case1.pkl" if name else os.path.basename(solution_file(script, case, o))))
    name = o.get("solve_lp")
    return "solutions_quantum/data4diagrams/" + (
        f"{name}_case{case}_{o['category']}.pkl" if name else os.path.basename(solution_file(script, case, o)))


def all_files(tier):
    out = set()
    for script, cases, runs in (("real", range(10), real_runs), ("generic", (1, 2, 3), lambda c: generic_runs(tier)),
                                ("wisla", (1,), lambda c: wisla_runs())):
        for case in cases:
            for o in runs(case):
                out |= {solution_file(script, case, o), schedule_file(script, case, o)}
    return sorted(x for x in out if x)


# what the workers prepare first: (data set, functions)
WARM = (
    [("KO_GLC", ("make_taus",))], [("KO_GLC", ("make_timetable",))], [("KO_GLC", ("make_train_set",)), ("KO_RCB_v2", ())],
    [("KO_RCB", ("make_taus", "make_train_set"))], [("KO_RCB", ("make_timetable",))], [("base", ())], [("Gt", ()), ("1track", ())],
    [("1track_Gt", ())],
)


def instances(tier):
    for i in range(len(WARM)):
        yield ("prepare", i)
    yield ("wisla", 1, 0, 1)
    yield ("listed",)
    for part in range(16):
        yield ("generic", 1, part, 16)
    for part in range(16):
        yield ("generic", 2, part, 16)
    for part in range(8):
        yield ("generic", 3, part, 8)
    for case in range(10):
        for part in range(4):
            yield ("real", case, part, 4)


# --- running a script
def canon(x):
    """text that is equal for equal values"""
    if isinstance(x, dict):
        return "{" + ",".join(sorted(f"{canon(k)}:{canon(v)}" for k, v in x.items())) + "|" + ",".join(map(repr, x)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(canon, x)) + "]"
    if hasattr(x, "to_dict") and hasattr(x, "columns"):
        return repr(list(x.columns)) + repr(x.values.tolist())
    return repr(x)


class Memo:
    """remembers the results of the pure preparation functions by the content of their
    arguments, for all workers, so that the runs of a script do not repeat them"""

    names = ("build_timetables", "make_taus", "make_timetable", "make_train_set", "load_data_paths")
    store = {}
    shared = None

    def __enter__(self):
        import helpers

        self.helpers = helpers
        self.old = {n: getattr(helpers, n) for n in self.names if hasattr(helpers, n)}
        for n, f in self.old.items():
            setattr(helpers, n, self.wrap(n, f))
        return self

    def wrap(self, name, f):
        def call(*a, **k):
            key = name + hashlib.sha1((canon(a) + canon(k)).encode()).hexdigest()
            if key not in self.store:
                self.store[key] = self.once(os.path.join(self.shared, key), lambda: pickle.dumps(f(*a, **k)))
            return pickle.loads(self.store[key])

        return call

    @staticmethod
    def once(path, f):
        """the content of the file, computed by whoever comes first"""
        until = time.time() + 400
        while True:
            if os.path.exists(path):
                with open(path, "rb") as g:
                    return g.read()
            try:
                os.close(os.open(path + ".lock", os.O_CREAT | os.O_EXCL))
                break
            except FileExistsError:
                if time.time() > until:
                    break
                time.sleep(0.2)
        try:
            out = f()
            with open(path + f".{os.getpid()}", "wb") as g:
                g.write(out)
            os.rename(path + f".{os.getpid()}", path)
            return out
        finally:
            with contextlib.suppress(FileNotFoundError):
                os.remove(path + ".lock")

    def __exit__(self, *e):
        for n, f in self.old.items():
            setattr(self.helpers, n, f)


def share():
    """a directory for the workers, made when the check is loaded and removed when the parent leaves"""
    path = tempfile.mkdtemp(prefix="mc_c29_shared_")
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(path, ignore_errors=True)

    atexit.register(clean)
    return path


Memo.shared = share()


def fill(prob, n):
    """known values of all variables"""
    out = {}
    for i, v in enumerate(prob.variables()):
        top = int(v.upBound)
        out[v.name] = (i * 7 + n * 3 + 1) % (top + 1)
    return out


class Solvers:
    """records what the solvers get, and answers"""

    def __enter__(self):
        import helpers
        import pulp

        self.lp, self.quantum = [], []
        self.helpers, self.cls = helpers, pulp.pulp.LpSolver
        self.old = (self.cls.actualSolve, helpers.solve_on_quantum)

        def actual(solver, lp, **k):
            values = fill(lp, len(self.lp))
            for v in lp.variables():
                v.varValue = float(values[v.name])
            self.lp.append((solver, digest(lp), values, lp))
            lp.sol_status = 1
            return 1

        def quantum(prob, method, pdict, minimum_time_limit):
            n = len(self.quantum)
            properties = {"minimum_time_limit_s": minimum_time_limit} if method in ("bqm", "cqm") else ""
            if method == "sim":
                properties = {"num_reads": 2}
            answer = {"energy": 3.5 + n, "objective": 0.25 * (n + 1), "feasible": n % 2 == 0, "sample": fill(prob, n),
                      "feas_constraints": ({"c": True}, 11 + n), "comp_time_seconds": 1.5, "info": {"run_time": 1000 + n},
                      "properties": properties}
            self.quantum.append((method, digest(prob), dict(pdict), minimum_time_limit, pickle.loads(pickle.dumps(answer))))
            return answer

        self.cls.actualSolve = actual
        helpers.solve_on_quantum = quantum
        return self

    def __exit__(self, *e):
        self.cls.actualSolve, self.helpers.solve_on_quantum = self.old


def describe(prob):
    c = collections.Counter()
    for con in prob.constraints.values():
        c[(tuple(sorted((v.name, round(float(a), 9)) for v, a in con.items() if a)), round(float(con.constant), 9) + 0.0,
           con.sense)] += 1
    for v in prob.variables():
        c[(v.name, v.cat, v.lowBound, v.upBound)] += 1
    c[("objective",) + tuple(sorted((v.name, round(float(a), 9)) for v, a in prob.objective.items() if a))] += 1
    return c


def digest(prob):
    return hashlib.sha1(repr(sorted(map(repr, describe(prob).items()))).encode()).hexdigest()


def run(ctx, script, args):
    old, out = sys.argv, io.StringIO()
    sys.argv = [script] + [str(a) for a in args]
    try:
        with Memo(), Solvers() as solvers:
            with ctx.code(f"running {' '.join(sys.argv)}"), contextlib.redirect_stdout(out):
                runpy.run_path(os.path.join(ctx.repo, script), run_name="__main__")
    finally:
        sys.argv = old
    ctx.trace()
    return solvers, out.getvalue()


# --- what is expected
_problems = {}


def pieces(ctx, name, wanted=("make_train_set", "make_timetable", "make_taus")):
    """train set, timetable and exact times of a data set, asked for as the scripts do"""
    import data_formatting.data_formatting as df
    import helpers

    generic = name in recorded.GENERIC.values()
    with Memo(), ctx.code(f"preparing the data set {name}"):
        important = helpers.load_important_stations("./data/" + shipped.DATASETS[name][1])
        table = helpers.load_data_paths("./data/network_paths.ods")
        tr = helpers.build_timetables("./data/" + shipped.DATASETS[name][0], not generic, important, table)
        skip = df.get_skip_stations(tr)
        out = {
            "make_train_set": lambda: helpers.make_train_set(tr, important, table, skip),
            "make_timetable": lambda: helpers.make_timetable(tr, important, skip, "14:00" if generic else "16:00"),
            "make_taus": lambda: helpers.make_taus(tr, important, r=0),
        }
        return [out[w]() for w in wanted]


def problem(ctx, script, case, k, cat):
    """(train set, timetable, digest of the problem) of a disturbance"""
    key = (script, case, k, cat)
    if key not in _problems:
        if script == "wisla":
            ts, tt = traffic.wisla()
            tt["penalty_weights"] = {"Ks1_5": 0.9, "Ks3_5": 0.9, "Ic1_5": 0.9, "Ks2_3": 1, "Ks2_5": 1, "Ic2_3": 1.5}
            prob = lpx.build(ctx, ts, tt, 10, cat)
        else:
            name = recorded.GENERIC[case] if script == "generic" else recorded.STUDY[case][0]
            c = shipped.case(ctx.repo, name)
            ts, tt, taus = pieces(ctx, name)
            delays = recorded.generic(case, list(c.routes))[k] if script == "generic" else recorded.STUDY[case][1]
            tt = traffic.delayed(ts, tt, {j: d for j, d in delays.items() if j in c.routes})
            tt["exact"] = taus
            prob = lpx.build(ctx, ts, tt, 40, cat)
        _problems[key] = (ts, tt, digest(prob), [v.name for v in prob.variables()])
    return _problems[key]


def published(ctx, schedule, script, case, values, cat, what):
    """the schedule is the one of the values of the variables"""
    ts, tt, _, names = problem(ctx, script, case, 0, cat)
    rules = ref_lp.Rules(ts, tt, 10 if script == "wisla" else 40)
    d = [values.get(lpx.delay_name(*key), 0) for key in rules.keys]
    d_max = 10 if script == "wisla" else 40
    taus = tt.get("exact", tt["tau"])
    if not isinstance(schedule, dict):
        ctx.fail(f"{what}: {schedule!r} is stored")
    c26.judge(ctx, schedule, ts, tt, rules, taus, d, d_max, WISLA_REF if script == "wisla" else REAL_REF)
    ctx.count("schedules")


def read(path):
    with open(path, "rb") as f:
        return pickle.load(f)


def examine(inst, ctx):
    if inst[0] == "prepare":
        for name, wanted in WARM[inst[1]]:
            pieces(ctx, name, *([wanted] if wanted else []))
        return
    if inst[0] == "listed":
        for case, (name, delays) in recorded.STUDY.items():
            absent = sorted(set(delays) - set(shipped.case(ctx.repo, name).routes))
            ctx.state()
            if absent:
                ctx.note(f"case {case} of solve_real_problem.py delays the trains {absent}, which are not in its timetable",
                         key=f"case{case}:absent-trains:" + ",".join(map(str, absent)))
        return
    script, case, part, parts = inst
    base = tempfile.mkdtemp(prefix="mc_c29_")
    back = os.getcwd()
    try:
        shutil.copytree(os.path.join(ctx.repo, "data"), os.path.join(base, "data"))
        os.chdir(base)
        runs = {"real": lambda: real_runs(case), "generic": lambda: generic_runs(ctx.tier), "wisla": wisla_runs}[script]()
        for n, o in enumerate(runs):
            if n % parts == part:
                judge(ctx, script, case, o)
        ctx.sample(repr(inst))
    finally:
        os.chdir(back)
        shutil.rmtree(base, ignore_errors=True)


def populate(ctx, script, case, o):
    """every file of every run, with a result of its own; {file: bytes}"""
    out = {}
    for d in ("solutions_quantum/data4diagrams", "solutions_quantum/wisla/data4diagrams", "results_KO_GLC"):
        shutil.rmtree(d.split("/")[0], ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    for d in ("solutions_quantum/data4diagrams", "solutions_quantum/wisla/data4diagrams", "results_KO_GLC"):
        os.makedirs(d, exist_ok=True)
    for i, path in enumerate(all_files(ctx.tier)):
        out[path] = pickle.dumps({"other": i})
        with open(path, "wb") as f:
            f.write(out[path])
    stored = None
    if o.get("show") and "solve_quantum" in o:
        names = problem(ctx, script, case, 0, o.get("category", "Integer"))[3]

        def sample(r):
            # delays and orders, different for every run
            top = 11 if script == "wisla" else 41
            return {v: (i * 5 + r) % (top if v.startswith("Delays_") else 2) for i, v in enumerate(names)}

        if script == "wisla":
            stored = {"sample": sample(3), "objective": 1.0, "feasible": True}
        else:
            stored = {r: {"sample": sample(r), "objective": 1.0, "feasible": True} for r in range(1, o["runs"] + 1)}
        path = solution_file(script, case, o)
        out[path] = pickle.dumps(stored)
        with open(path, "wb") as f:
            f.write(out[path])
    return out, stored


def judge(ctx, script, case, o):
    cat = o.get("category", "Integer")
    before, stored = populate(ctx, script, case, o)
    name = {"real": "solve_real_problem.py", "generic": "solve_KO_GLC_problems.py", "wisla": "wisla_problems.py"}[script]
    args = [] if script == "wisla" else ["--case", case]
    for k, v in o.items():
        if k == "show":
            if v:
                args += ["--show_timetable", 1]
        elif not (k == "time_limit" and not v):
            args += ["--" + k, v]
    ctx.state()
    solvers, text = run(ctx, name, args)
    what = f"{name} {' '.join(map(str, args))}"
    count = 12 if script == "generic" else 1
    # the calls of the solvers
    if "solve_lp" in o:
        want_lp, want_q = count, 0
    else:
        want_lp = 0
        want_q = 0 if o.get("show") else count * (o["runs"] if script == "real" else 1)
    ctx.same((len(solvers.lp), len(solvers.quantum)), (want_lp, want_q), f"{what}: calls of linear and of quantum solvers")
    for i, (solver, dig, values, lp) in enumerate(solvers.lp):
        ctx.step()
        if type(solver).__name__ != o["solve_lp"] or solver.kwargs.get("timeLimit") != (o.get("time_limit") or None):
            ctx.fail(f"{what}: solved by {type(solver).__name__} with {solver.kwargs}")
        if dig != problem(ctx, script, case, i, cat)[2]:
            ctx.fail(f"{what}: problem {i} that is solved is not the one of the case and its disturbance")
    for i, (method, dig, pdict, limit, answer) in enumerate(solvers.quantum):
        ctx.step()
        if method != o["solve_quantum"]:
            ctx.fail(f"{what}: solved by {method}")
        if method in ("bqm", "cqm") and limit != o["min_t"]:
            ctx.fail(f"{what}: time limit {limit}")
        if dig != problem(ctx, script, case, i if script == "generic" else 0, cat)[2]:
            ctx.fail(f"{what}: problem {i} that is solved is not the one of the case and its disturbance")
        if method != "cqm":
            penalties = {pdict.get(k) for k in KINDS}
            if pdict.get("objective") != 1 or (script == "real" and penalties != {o["penalty"]}) or \
                    any(not isinstance(p, (int, float)) or p <= 0 for p in penalties):
                ctx.fail(f"{what}: penalties {pdict}")
    # the files written
    written = {}
    for d in ("solutions_quantum", "results_KO_GLC"):
        for root, _, files in os.walk(d):
            for f in files:
                path = os.path.join(root, f)
                with open(path, "rb") as g:
                    now = g.read()
                if before.get(path) != now:
                    written[path] = now
    for path in before:
        if not os.path.exists(path):
            ctx.fail(f"{what}: {path} was removed")
    expected = set()
    solution, schedule = solution_file(script, case, o), schedule_file(script, case, o)
    if solution and not o.get("show"):
        expected.add(solution)
    if schedule:
        expected.add(schedule)
    if set(written) != expected:
        ctx.fail(f"{what}: wrote {sorted(written)}, expected {sorted(expected)}")
    ctx.outcome((script, case, tuple(sorted(expected))))
    # their contents
    if solution and not o.get("show"):
        content(ctx, script, case, o, read(solution), solvers, what)
    if schedule:
        got = read(schedule)
        if "solve_lp" in o:
            published(ctx, got, script, case, solvers.lp[0][2], cat, what)
        elif script == "wisla":
            published(ctx, got, script, case, stored["sample"], cat, what)
        else:
            ctx.same(sorted(got), sorted(stored), f"{what}: runs published")
            for r in stored:
                published(ctx, got[r], script, case, stored[r]["sample"], cat, what)
    if "solve_lp" in o and script != "generic":
        value = solvers.lp[0][3].objective.value()
        if str(value) not in text:
            ctx.fail(f"{what}: the objective {value} is not printed")


def content(ctx, script, case, o, got, solvers, what):
    ctx.count("results")
    if script == "wisla":
        ctx.same(got, solvers.quantum[0][4], f"{what}: stored result")
    elif script == "real":
        ctx.same(got, {i + 1: q[4] for i, q in enumerate(solvers.quantum)}, f"{what}: stored results")
    else:
        head = {"case": case, "d_max": 40, "samples": 12}
        ctx.same({k: got.get(k) for k in head}, head, f"{what}: head of the results")
        if "solve_lp" in o:
            ctx.same(got.get("method"), o["solve_lp"], f"{what}: method")
        for i in range(12):
            r = got.get(i)
            if r is None:
                ctx.fail(f"{what}: no result of disturbance {i}; there are {list(got)}")
            names = problem(ctx, script, case, i, o.get("category", "Integer"))[3]
            orders = sum(not n.startswith("Delays_") for n in names)
            ctx.same((r["order_vars"], r["int_vars"]), (orders, len(names) - orders), f"{what}: size of problem {i}")
            if "solve_lp" in o:
                value = solvers.lp[i][3].objective.value() * 40
                if abs(r["objective"] - value) > 1e-6 or r["feasible"] is not True or r["comp_time_seconds"] < 0 or \
                        r["constraints"] != len(solvers.lp[i][3].constraints):
                    ctx.fail(f"{what}: result {i} is {r}, the objective of its solution {value}")
            else:
                q = solvers.quantum[i][4]
                ctx.same({k: r.get(k) for k in q}, q, f"{what}: result {i}")
                ctx.same(r.get("broken_constraints"), r["constraints"] - q["feas_constraints"][1],
                         f"{what}: broken constraints of result {i}")


def finish(ctx, tier):
    if not ctx.counts.get("schedules") or not ctx.counts.get("results"):
        return "no result was explored"
    return None
