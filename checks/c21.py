"""C21: the constrained quadratic model is the same problem as the linear one."""
import itertools

from mc import lpx, recorded, small_lp as sl

PROPERTY = "C21"
BOUNDS = ((0, 1), (0, 2), (1, 3), (-1, 1), (-2, -1), (2, 2), (0, 5), (0, 0))
COEFS = (-2, -1, 0, 1, 3)
CONSTS = (-3, -1, 0, 2)
OBJECTIVES = (None, ((0, 0, 0), 2), ((1, 0, 0), 0), ((0, 0, -0.5), 0), ((-1, 1.75, 0.25), -3))
BOUND = {
    "quick": "three integer variables over all ordered pairs of 8 ranges and a binary, every linear constraint with "
             "coefficients -2, -1, 0, 0.5, 1, 3, constants -3, -1, 0, 2 and each sense, 5 objectives, all ordered selections of "
             "three of 12 constraints, all assignments; small railway problems of every rule with all assignments; the "
             "4 data sets of the network with every recorded sample of the constrained solver",
    "thorough": "as quick with all pairs of ranges also for the third variable",
}
ASSUMPTIONS = ["dimod is replaced by a stand-in that is checked by the code's own tests of the conversion"]
POOL = [(k, c, s, d) for k, c, s, d in (
    ("minimal_span", (1, 0, 0), sl.LE, -1), ("single_line", (1, -2, 0), sl.GE, 2), ("switch", (0, 1, 1), sl.EQ, -1),
    ("minimal_stay", (0, 3, -1), sl.LE, 0), ("circulation", (-1, 0, 3), sl.GE, -3), ("track_occupation", (1, 1, 1), sl.EQ, 0),
    ("switch", (0, 0, 1), sl.GE, 0), ("minimal_span", (-2, 1, 0), sl.EQ, 2), ("single_line", (3, -1, -1), sl.LE, -3),
    ("circulation", (0, -1, 0), sl.LE, 2), ("minimal_stay", (-1, -1, 1), sl.GE, 1), ("track_occupation", (1, 0, -1), sl.LE, 0.5))]


def instances(tier):
    for name in recorded.FILES:
        yield ("recorded", name)
    for name in sl.railway():
        for d_max in (1, 2, 3):
            yield ("railway", name, d_max)
    thirds = ((0, 1),) if tier == "quick" else ((0, 1), (-1, 1), (1, 3))
    for a, b in itertools.product(BOUNDS, repeat=2):
        for t in thirds:
            yield ("one", (a, b, t))
            yield ("three", (a, b, t))


def convert(ctx, prob):
    with ctx.code("converting to the constrained quadratic model"):
        return lpx.rs().convert_to_cqm(prob)


def holds(c, sample):
    lhs = c.lhs.energy(sample)
    if c.sense == "==":
        return abs(lhs - c.rhs) <= 1e-9
    if c.sense == "<=":
        return lhs <= c.rhs + 1e-9
    return lhs >= c.rhs - 1e-9


def linear(c, x):
    """does the linear constraint hold for the values x {name: value}"""
    e = c.constant + sum(a * x[v.name] for v, a in c.items())
    return e <= 1e-9 if c.sense < 0 else e >= -1e-9 if c.sense > 0 else abs(e) <= 1e-9


def same_variables(ctx, prob, cqm):
    want = {v.name: (0, v.upBound - v.lowBound) for v in prob.variables()}
    got = {v: (cqm.lower_bound(v), cqm.upper_bound(v)) for v in cqm.variables}
    if want != got:
        ctx.fail(f"ranges of the variables {got} instead of {want}")
    if any(cqm.vartype(v).name not in ("BINARY", "INTEGER") for v in got):
        ctx.fail("variables that are not integers")
    if set(cqm.constraints) != set(prob.constraints):
        ctx.fail(f"constraints {sorted(cqm.constraints)} instead of {sorted(prob.constraints)}")


def compare(ctx, prob, samples):
    cqm = convert(ctx, prob)
    same_variables(ctx, prob, cqm)
    low = {v.name: v.lowBound for v in prob.variables()}
    pairs = [(n, c, cqm.constraints[n]) for n, c in prob.constraints.items()]
    for x in samples:
        ctx.state()
        moved = {v: x[v] - lo for v, lo in low.items()}
        mask = 0
        for n, c, q in pairs:
            ctx.step()
            a, b = linear(c, x), holds(q, moved)
            mask = mask * 2 + a
            if a != b:
                ctx.fail(f"{n}: {c} is {'met' if a else 'broken'} by {x} in the linear problem, "
                         f"{'met' if b else 'broken'} in the constrained model")
        ctx.outcome(mask)
        if prob.objective is not None:
            want = prob.objective.constant + sum(a * x[v.name] for v, a in prob.objective.items())
            got = cqm.objective.energy(moved)
            if abs(got - want) > 1e-9:
                ctx.fail(f"objective {got} of {x} instead of {want}")
    ctx.trace()
    return cqm


def run(ctx, problem):
    names = [sl.VARIABLES[i] for i in range(3)]
    compare(ctx, sl.build(problem), [dict(zip(names, x)) for x in sl.assignments(problem)])


def examine(inst, ctx):
    if inst[0] == "one":
        bounds = inst[1]
        n = 0
        for coefs in itertools.product(COEFS, COEFS, (0, 1, -2, 0.5)):
            if not any(coefs):
                continue
            for sense in sl.SENSES:
                for const in CONSTS:
                    run(ctx, (bounds, [("switch", coefs, sense, const)], OBJECTIVES[n % len(OBJECTIVES)]))
                    n += 1
        for coefs in itertools.product((-1, 0, 0.5, 1.75), repeat=3):
            for const in (0, -2):
                run(ctx, (bounds, [("switch", (1, 1, 1), sl.LE, -1)], (coefs, const)))
    elif inst[0] == "three":
        bounds = inst[1]
        for cons in itertools.permutations(POOL, 3):
            run(ctx, (bounds, list(cons), OBJECTIVES[4]))
    elif inst[0] == "railway":
        _, name, d_max = inst
        ts, tt = sl.railway()[name]
        prob = lpx.build(ctx, ts, tt, d_max)
        vs = prob.variables()
        compare(ctx, prob, [dict(zip([v.name for v in vs], x))
                            for x in itertools.product(*(range(v.lowBound, v.upBound + 1) for v in vs))])
    else:
        recorded_runs(ctx, inst[1])
    ctx.sample(repr(inst))


def recorded_runs(ctx, name):
    """every sample the constrained solver recorded for the data set, on the problem of today"""
    _, _, prob = recorded.problem(ctx, name)
    samples = [recorded.sample(run_, prob) for _, run_ in recorded.runs(ctx, name)]
    ctx.count("recorded_samples", len(samples))
    compare(ctx, prob, samples)


def finish(ctx, tier):
    if ctx.counts.get("recorded_samples", 0) < 50:
        return "the recorded samples were not read"
    return None
