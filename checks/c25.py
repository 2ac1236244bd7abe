"""C25: every solving method gets the right model and parameters and returns its best."""
import itertools
import time

import dimod

from mc import lpx, small_lp as sl
from mc.qubo import Encoding

PROPERTY = "C25"
METHODS = ("sim", "real", "bqm", "cqm")
PD = ({**{k: i + 2 for i, k in enumerate(sl.KINDS)}, "objective": 1, "occupation": 9},
      {**{k: 2.5 for k in sl.KINDS}, "objective": 0.5, "occupation": 2.5},
      {**{k: 100 for k in sl.KINDS}, "objective": 1, "occupation": 100})
PROBLEMS = (
    (((0, 2), (0, 1)), [("minimal_span", (1, 1), sl.GE, -1)], ((1, 0.5), 0)),
    (((0, 3), (0, 1)), [("switch", (1, -2), sl.LE, -1), ("circulation", (1, 1), sl.EQ, -2)], ((-0.25, 1), 2)),
    (((0, 1), (0, 1)), [("single_line", (1, 1), sl.EQ, -1)], ((1, 2), 0)),
)
BOUND = {
    "quick": "4 methods, 3 problems, 3 sets of penalties, time limits 5, 6, 20: every answer of one sample and every ordered "
             "pair of samples of the solver (all bit patterns), every answer of up to three samples of the constrained "
             "solver; all sequences of two calls over methods, problems, penalties and limits; every combination of three "
             "values of each parameter of the four solvers",
    "thorough": "as quick with every answer of three samples for the first and the last problem",
}
ASSUMPTIONS = ["a time limit may be given as a property of the sampler or as time_limit",
               "the solver services are replaced by stand-ins with the parameters of dwave-neal 0.6 and dwave-system 1.17"]


def instances(tier):
    for m, p, pd in itertools.product(METHODS, range(len(PROBLEMS)), range(len(PD))):
        for limit in (5, 6, 20):
            yield ("answers", m, p, pd, limit, 1)
        for part in range(4):
            yield ("answers", m, p, pd, 5 + pd, 2, part)
        if m == "cqm" or (tier == "thorough" and p != 1):
            for part in range(4):
                yield ("answers", m, p, pd, 5, 3, part)
    for m in METHODS:
        yield ("turns", m)
    for what in ("sim_anneal", "real_anneal", "hybrid_anneal", "constrained_solver"):
        yield ("parameters", what)


class Solvers:
    """the stand-ins answer with the given samples"""

    def __init__(self, answer, energies=None, pause=0.0):
        self.answer, self.pause = answer, pause
        self.info = {"run": object(), "timing": 17}

    def __enter__(self):
        import dwave.system as ds
        import neal

        self.ds, self.neal = ds, neal
        ds.calls.clear()
        neal.calls.clear()

        def sampleset(model):
            if self.pause:
                time.sleep(self.pause)
            answer = self.answer(model)
            if isinstance(model, dimod.ConstrainedQuadraticModel):
                ss = dimod.SampleSet.from_samples(answer, "INTEGER", [model.objective.energy(s) for s in answer])
            else:
                ss = dimod.SampleSet.from_samples_bqm(answer, model)
            ss.info = self.info
            return ss

        ds.backend = lambda kind, model, params: sampleset(model)
        neal.backend = lambda bqm, params: sampleset(bqm)
        return self

    def __exit__(self, *a):
        self.ds.backend = self.neal.backend = None

    @property
    def calls(self):
        return self.neal.calls + self.ds.calls


def same_bqm(a, b):
    if set(a.variables) != set(b.variables):
        return False
    bits = list(a.variables)
    for x in itertools.product((0, 1), repeat=len(bits)):
        s = dict(zip(bits, x))
        if abs(a.energy(s) - b.energy(s)) > 1e-6:
            return False
    return True


def same_cqm(a, b):
    if set(a.variables) != set(b.variables) or set(a.constraints) != set(b.constraints):
        return False
    names = list(a.variables)
    for x in itertools.product(*(range(int(a.lower_bound(v)), int(a.upper_bound(v)) + 1) for v in names)):
        s = dict(zip(names, x))
        if abs(a.objective.energy(s) - b.objective.energy(s)) > 1e-6:
            return False
        va, vb = a.violations(s, clip=True), b.violations(s, clip=True)
        if any((va[k] > 1e-9) != (vb[k] > 1e-9) for k in va):
            return False
    return True


class Case:
    def __init__(self, ctx, p, pd):
        self.problem, self.pdict = PROBLEMS[p], PD[pd]
        self.prob = sl.build(self.problem)
        with ctx.code("converting the problem"):
            self.bqm = lpx.rs().convert_to_bqm(self.prob, self.pdict)[0]
            self.cqm = lpx.rs().convert_to_cqm(self.prob)
        self.enc = Encoding(ctx, self.prob)
        self.models = {}

    def samples(self, method):
        """every sample the solver of the method can give"""
        if method == "cqm":
            names = list(self.cqm.variables)
            return [dict(zip(names, x)) for x in itertools.product(
                *(range(int(self.cqm.upper_bound(v)) + 1) for v in names))]
        bits = list(self.bqm.variables)
        return [dict(zip(bits, x)) for x in itertools.product((0, 1), repeat=len(bits))]

    def read(self, method, sample):
        values = sample if method == "cqm" else self.enc.read(sample)
        return tuple(int(values[v]) for v in sl.VARIABLES[:2])


def solve(ctx, case, method, limit, answer, pause=0.0):
    import helpers

    ctx.state()
    ctx.trace()
    ctx.step()
    with Solvers(lambda model: [dict(s) for s in answer], pause=pause) as solvers:
        t0 = time.time()
        with ctx.code(f"solving with the method {method}"):
            got = helpers.solve_on_quantum(case.prob, method, case.pdict, limit)
        elapsed = time.time() - t0
        calls = list(solvers.calls)
    what = f"method {method}, problem {case.problem}, penalties {case.pdict}, limit {limit}, answer {answer}"
    if len(calls) != 1:
        ctx.fail(f"{len(calls)} calls of solvers instead of one; {what}")
    kind, model, params = calls[0]
    if kind != {"sim": "neal", "real": "qpu", "bqm": "hybrid", "cqm": "cqm"}[method]:
        ctx.fail(f"the solver called is {kind}; {what}")
    if not (same_cqm(model, case.cqm) if method == "cqm" else same_bqm(model, case.bqm)):
        ctx.fail(f"the solver got another model; {what}")
    properties = got["properties"]
    if method in ("bqm", "cqm"):
        if limit not in (params.get("time_limit"), params["properties"].get("minimum_time_limit_s")):
            ctx.fail(f"the solver got the parameters {params}; {what}")
        if not isinstance(properties, dict) or properties.get("minimum_time_limit_s") != limit:
            ctx.fail(f"the properties attached are {properties}; {what}")
    if method == "sim":
        for k in ("beta_range", "num_reads", "num_sweeps"):
            if params[k] != properties[k]:
                ctx.fail(f"the annealer got {k} {params[k]}, requested and attached is {properties[k]}; {what}")
    values = [case.read(method, s) for s in answer]
    good = [x for x in values if not any(sl.violation(c, x) for c in case.problem[1])]
    x = tuple(int(got["sample"][v]) for v in sl.VARIABLES[:2])
    if x not in values:
        ctx.fail(f"the answer {x} is none of the samples {values}; {what}")
    obj = sl.objective(case.problem, x)
    if abs(got["objective"] - obj) > 1e-9:
        ctx.fail(f"objective {got['objective']} of {x} instead of {obj}; {what}")
    if bool(got["feasible"]) != (x in good):
        ctx.fail(f"{x} is reported as feasible: {got['feasible']}; {what}")
    if good and (x not in good or obj > min(sl.objective(case.problem, g) for g in good) + 1e-9):
        ctx.fail(f"{x} is returned, feasible samples are {good}; {what}")
    ctx.count("feasible" if good else "infeasible")
    if got["info"] is not solvers.info:
        ctx.fail(f"the information of the solver is {got['info']}; {what}")
    if not pause - 1e-3 <= got["comp_time_seconds"] <= elapsed + 1e-3:
        ctx.fail(f"measured {got['comp_time_seconds']} s, the solver took {pause} s, the call {elapsed} s; {what}")
    ctx.outcome((method, x, bool(got["feasible"])))


def examine(inst, ctx):
    if inst[0] == "answers":
        _, method, p, pd, limit, n = inst[:6]
        case = Case(ctx, p, pd)
        every = case.samples(method)
        part = inst[6] if len(inst) > 6 else None
        for k, answer in enumerate(itertools.product(every, repeat=n)):
            if part is None or k % 4 == part:
                solve(ctx, case, method, limit, list(answer), pause=0.004 if k % 97 == 0 else 0.0)
    elif inst[0] == "turns":
        first = inst[1]
        cases = [[Case(ctx, p, pd) for pd in range(len(PD))] for p in range(len(PROBLEMS))]
        for p, pd, limit in itertools.product(range(len(PROBLEMS)), range(len(PD)), (5, 20)):
            for m2, p2, pd2, limit2 in itertools.product(METHODS, range(len(PROBLEMS)), range(len(PD)), (5, 20)):
                for m, c, lim in ((first, cases[p][pd], limit), (m2, cases[p2][pd2], limit2)):
                    every = c.samples(m)
                    solve(ctx, c, m, lim, [every[0], every[-1], every[len(every) // 2]])
    else:
        parameters(ctx, inst[1])
    ctx.sample(repr(inst))


def parameters(ctx, what):
    case = Case(ctx, 0, 0)
    rs = lpx.rs()
    answer = case.samples("cqm" if what == "constrained_solver" else "sim")[:2]
    if what == "sim_anneal":
        space = {"beta_range": ((5, 100), (0.001, 10), (1, 2)), "num_sweeps": (10, 11, 4000), "num_reads": (1, 2, 1000)}
    elif what == "real_anneal":
        space = {"num_reads": (1, 250, 1000), "annealing_time": (20, 250, 3), "chain_strength": (1, 4, 2.5)}
    else:
        space = {"minimum_time_limit": (5, 6, 20)}
    for values in itertools.product(*space.values()):
        for by_name in (False, True):
            ctx.state()
            ctx.trace()
            ctx.step()
            args = dict(zip(space, values))
            model = case.cqm if what == "constrained_solver" else case.bqm
            with Solvers(lambda m: [dict(s) for s in answer]) as solvers:
                with ctx.code(f"{what} with {args}"):
                    out = getattr(rs, what)(model, **args) if by_name else getattr(rs, what)(model, *values)
                calls = list(solvers.calls)
            if len(calls) != 1:
                ctx.fail(f"{len(calls)} calls of solvers instead of one")
            _, got, params = calls[0]
            if got is not model and not (same_cqm if what == "constrained_solver" else same_bqm)(got, model):
                ctx.fail(f"{what}: the solver got another model")
            if what in ("sim_anneal", "real_anneal"):
                for k, v in args.items():
                    if k not in params or params[k] != v:
                        ctx.fail(f"{what} requested with {args}: the solver got {params}")
                samples = out
            else:
                limit = args["minimum_time_limit"]
                if limit not in (params.get("time_limit"), params["properties"].get("minimum_time_limit_s")):
                    ctx.fail(f"{what} requested with {args}: the solver got {params}")
                samples = out[0]
            if [dict(s) for s in samples.samples(sorted_by=None)] != answer or samples.info is not solvers.info:
                ctx.fail(f"{what}: the answer of the solver is not handed on")
            ctx.outcome((what, values))


def finish(ctx, tier):
    if not ctx.counts.get("feasible") or not ctx.counts.get("infeasible"):
        return "feasible and infeasible answers were not both explored"
    return None
