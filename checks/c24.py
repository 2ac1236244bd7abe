"""C24: the analysis of solutions reports true feasibility, objective and the best sample."""
import itertools

import dimod

from mc import lpx, recorded, small_lp as sl

PROPERTY = "C24"
BOUNDS = ((0, 2), (0, 1))
COEFS = (-1, 0, 1, 2)
CONSTS = (-2, -1, -0.5, 0, 0.125)
OBJECTIVES = (((0, 0), 0), ((1, 0), 0), ((-1, 2), 1), ((0.25, 0.5), -2))
BOUND = {
    "quick": "two variables: every constraint with coefficients -1, 0, 1, 2, constants -2, -1, -1/2, 0, 1/8 and each sense, "
             "4 objectives, all 6 assignments; all sets of up to three of 8 constraints with all sample sets of one to three "
             "samples in all orders, energies equal, rising or falling with the objective and unrelated; values given as "
             "integers, floats, negative zero; problems without constraints; "
             "the recorded samples of the constrained solver on the problems of 4 data sets",
    "thorough": "as quick with sample sets of up to four samples",
}
ASSUMPTIONS = ["results of equal objective may come in any order"]
POOL = (("minimal_span", (1, 0), sl.LE, -1), ("switch", (1, 1), sl.GE, -1), ("circulation", (1, -1), sl.EQ, 0),
        ("single_line", (0, 1), sl.GE, -1), ("minimal_stay", (-1, 2), sl.LE, -0.5), ("switch", (0, 1), sl.EQ, 0),
        ("track_occupation", (2, 1), sl.GE, -0.125), ("minimal_span", (1, 1), sl.LE, -3))


def instances(tier):
    for name in recorded.FILES:
        yield ("recorded", name)
    for coefs in itertools.product(COEFS, repeat=2):
        if any(coefs):
            yield ("one", coefs)
    most = 4 if tier == "thorough" else 3
    for n in (0, 1, 2, 3):
        for cons in itertools.combinations(range(len(POOL)), n):
            for o in range(len(OBJECTIVES)):
                yield ("sets", cons, o, most)


def analyse(ctx, prob, samples, energies):
    ss = dimod.SampleSet.from_samples([dict(zip(sl.VARIABLES, s)) for s in samples], "INTEGER", list(energies))
    with ctx.code("analysing samples"):
        return lpx.rs().get_results(ss, prob)


def judge(ctx, problem, prob, samples, energies):
    ctx.state()
    ctx.trace()
    results = analyse(ctx, prob, samples, energies)
    got = []
    for r in results:
        ctx.step()
        x = tuple(r["sample"][v] for v in sl.VARIABLES[:2])
        broken = [sl.label(i, c[0]) for i, c in enumerate(problem[1]) if sl.violation(c, x)]
        obj = sl.objective(problem, x)
        what = f"sample {x} of {samples} (energies {energies}), problem {problem}"
        if abs(r["objective"] - obj) > 1e-9:
            ctx.fail(f"objective {r['objective']} instead of {obj}; {what}")
        if bool(r["feasible"]) != (not broken):
            ctx.fail(f"feasible {r['feasible']}, broken are {broken}; {what}")
        flags, count = r["feas_constraints"]
        if {k: bool(v) for k, v in flags.items()} != {sl.label(i, c[0]): sl.label(i, c[0]) not in broken
                                                    for i, c in enumerate(problem[1])}:
            ctx.fail(f"constraints reported as met {flags}, broken are {broken}; {what}")
        if count != len(problem[1]) - len(broken):
            ctx.fail(f"{count} constraints reported as met, broken are {broken} of {len(problem[1])}; {what}")
        got.append((tuple(float(v) for v in x), float(r["energy"])))
        ctx.outcome((len(broken), obj))
    want = [(tuple(float(v) for v in s), float(e)) for s, e in zip(samples, energies)]
    if sorted(got) != sorted(want):
        ctx.fail(f"results of {sorted(got)}, samples given {sorted(want)}")
    with ctx.code("choosing the best sample"):
        best = lpx.rs().get_best_feasible_sample(results)
    good = [sl.objective(problem, s) for s in samples if not any(sl.violation(c, s) for c in problem[1])]
    if best not in results:
        ctx.fail(f"the best sample {best} is none of the results")
    if good:
        ctx.count("some_feasible")
        if not best["feasible"] or abs(best["objective"] - min(good)) > 1e-9:
            ctx.fail(f"the best sample is reported with objective {best['objective']}, feasible {best['feasible']}; the best "
                     f"feasible objective is {min(good)}; samples {samples}, energies {energies}, problem {problem}")
    else:
        ctx.count("none_feasible")
        if best["feasible"]:
            ctx.fail(f"no sample is feasible, reported is {best}")


def examine(inst, ctx):
    if inst[0] == "one":
        coefs = inst[1]
        for sense, const, o in itertools.product(sl.SENSES, CONSTS, OBJECTIVES):
            problem = (BOUNDS, [("switch", coefs, sense, const), ("minimal_span", (1, 1), sl.GE, 0)], o)
            prob = sl.build(problem)
            every = list(sl.assignments(problem))
            for x in every:
                judge(ctx, problem, prob, [x], [0.5])
                judge(ctx, problem, prob, [tuple(float(v) for v in x)], [0.5])
                judge(ctx, problem, prob, [tuple(-0.0 if v == 0 else v for v in x)], [0.5])
            for pair in itertools.permutations(every, 2):
                judge(ctx, problem, prob, list(pair), [1, 0])
    elif inst[0] == "recorded":
        recorded_runs(ctx, inst[1])
    else:
        _, cons, o, most = inst
        problem = (BOUNDS, [POOL[i] for i in cons], OBJECTIVES[o])
        prob = sl.build(problem)
        every = list(sl.assignments(problem))
        for n in range(1, most + 1):
            for chosen in itertools.product(every, repeat=n):
                objective = [sl.objective(problem, s) for s in chosen]
                for energies in ([0.0] * n, objective, [-e for e in objective], [float(-i) for i in range(n)]):
                    judge(ctx, problem, prob, list(chosen), energies)
    ctx.sample(repr(inst))


def recorded_runs(ctx, name):
    """all recorded runs of the data set together, in both orders, on the problem of today"""
    _, _, prob = recorded.problem(ctx, name)
    samples = [recorded.sample(r, prob) for _, r in recorded.runs(ctx, name)]
    ctx.count("recorded_samples", len(samples))
    for order in (samples, samples[::-1]):
        ss = dimod.SampleSet.from_samples(order, "INTEGER", list(range(len(order))))
        ctx.state()
        with ctx.code("analysing samples"):
            results = lpx.rs().get_results(ss, prob)
        if len(results) != len(order):
            ctx.fail(f"{len(results)} results of {len(order)} samples")
        for r in results:
            ctx.trace()
            x = order[int(r["energy"])]
            ctx.same({k: int(v) for k, v in r["sample"].items()}, x, "sample of a result")
            broken = set()
            for n, c in prob.constraints.items():
                ctx.step()
                e = c.constant + sum(a * x[v.name] for v, a in c.items())
                if (e > 1e-9 and c.sense <= 0) or (e < -1e-9 and c.sense >= 0):
                    broken.add(n)
            flags, count = r["feas_constraints"]
            if {n for n, f in flags.items() if not f} != broken or set(flags) != set(prob.constraints):
                ctx.fail("the constraints reported as broken are not the broken ones")
            ctx.same(count, len(prob.constraints) - len(broken), "number of constraints that are met")
            ctx.same(bool(r["feasible"]), not broken, "feasibility")
            obj = prob.objective.constant + sum(a * x[v.name] for v, a in prob.objective.items())
            if abs(obj - r["objective"]) > 1e-9:
                ctx.fail(f"objective {r['objective']} instead of {obj}")


def finish(ctx, tier):
    if not ctx.counts.get("some_feasible") or not ctx.counts.get("none_feasible"):
        return "feasible and infeasible sample sets were not both explored"
    return None
