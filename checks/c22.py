"""C22: the unconstrained quadratic model ranks assignments as the linear problem does."""
import itertools

from mc import lpx, qubo, small_lp as sl

PROPERTY = "C22"
BOUNDS = ((0, 1), (0, 2), (0, 3), (1, 3), (-1, 1), (-3, 2), (0, 5), (0, 6))
SECOND = ((0, 1), (0, 3), (-1, 1))
COEFS = (-2, -1, 0, 1, 3)
PENALTIES = ({"minimal_span": 2, "single_line": 3, "minimal_stay": 5, "track_occupation": 7, "switch": 11,
              "circulation": 13, "objective": 1, "occupation": 17},
             {"minimal_span": 2.5, "single_line": 0.5, "minimal_stay": 4, "track_occupation": 0.25, "switch": 1.5,
              "circulation": 8, "objective": 3, "occupation": 1},
             {"minimal_span": 100, "single_line": 100, "minimal_stay": 100, "track_occupation": 100, "switch": 100,
              "circulation": 100, "objective": 1, "occupation": 100})
BOUND = {
    "quick": "two integer variables over 8 and 3 ranges, every constraint with coefficients -2, -1, 0, 1, 3, "
             "each sense and every constant for which it can be met (those it just meets included), kinds and penalties in "
             "turn; all ordered pairs of 14 constraints of all kinds on three variables; small railway problems of every rule "
             "with d_max 1..4; all bits, the auxiliary ones included; the 2 smallest shipped data sets can be converted",
    "thorough": "as quick with all pairs of ranges and all ordered triples of constraints",
}
ASSUMPTIONS = ["pyqubo and dimod are replaced by stand-ins that are checked by the code's own tests of the conversion",
               "each constraint alone can be met within the bounds, each variable has at least two values"]
POOL = (
    ("minimal_span", (1, 0, 0), sl.LE, -1), ("single_line", (1, -2, 0), sl.GE, 1), ("switch", (0, 1, 1), sl.EQ, -1),
    ("minimal_stay", (0, 3, -1), sl.LE, 0), ("circulation", (-1, 0, 3), sl.GE, 0), ("track_occupation", (1, 1, 1), sl.EQ, -2),
    ("switch", (0, 0, 1), sl.GE, 0), ("minimal_span", (-2, 1, 0), sl.EQ, 1), ("single_line", (2, -1, -1), sl.LE, -2),
    ("circulation", (0, -1, 0), sl.LE, 1), ("minimal_stay", (-1, -1, 1), sl.GE, 1), ("track_occupation", (1, 0, -1), sl.LE, 0),
    ("minimal_stay", (1, 0, 0), sl.GE, -2), ("switch", (1, 1, 0), sl.LE, 0),
)
THREE = ((0, 2), (0, 1), (0, 3))


def instances(tier):
    for name in ("base", "1track"):
        yield ("shipped", name)
    for name in sl.railway():
        for d_max in (1, 2, 3, 4):
            yield ("railway", name, d_max)
    for a, b in itertools.product(BOUNDS, BOUNDS if tier == "thorough" else SECOND):
        for x in COEFS:
            for y in COEFS:
                if x or y:
                    yield ("one", (a, b), (x, y))
    for a, b in itertools.product(range(len(POOL)), repeat=2):
        yield ("two", a, b)
        if tier == "thorough":
            for c in range(len(POOL)):
                yield ("three", a, b, c)


def judge(ctx, prob, cons, names, objective, pdict):
    """cons: [(kind, violation function)], over assignments in the order of names"""
    with ctx.code("converting to the unconstrained quadratic model"):
        bqm, (Q, offset), interpreter = lpx.rs().convert_to_bqm(prob, pdict)
    with ctx.code("reading samples of the model"):
        m = qubo.Model(bqm, interpreter, names)
    ctx.trace()
    best, optimum = None, None
    seen = set()
    for pattern, low in m.lowest():
        with ctx.code("reading a sample of the model"):
            x = m.read(pattern)
        ctx.state()
        ctx.step(m.patterns)
        broken = [(kind, viol(x)) for kind, viol in cons]
        obj = objective(x)
        want = pdict["objective"] * obj + sum(pdict[kind] * v * v for kind, v in broken)
        if abs(low - want) > 1e-6 * max(1, abs(want)):
            ctx.fail(f"lowest energy {low} of the assignment {dict(zip(names, x))} instead of {want}: objective {obj}, "
                     f"broken constraints {[b for b in broken if b[1]]}, penalties {pdict}")
        ctx.outcome(round(want, 6))
        seen.add(x)
        best = low if best is None else min(best, low)
        if not any(v for _, v in broken):
            optimum = pdict["objective"] * obj if optimum is None else min(optimum, pdict["objective"] * obj)
        # the same model in the other form
        bits = {b: v for b, v in zip(m.bits, pattern)}
        e = offset + sum(c for (u, v), c in Q.items() if bits[u] and bits[v])
        if abs(e - m.energy(pattern)) > 1e-6 * max(1, abs(e)):
            ctx.fail(f"energy {e} of the dictionary form, {m.energy(pattern)} of the model for {bits}")
    return m, seen, best, optimum


def run(ctx, problem, pdict):
    prob = sl.build(problem)
    idx = sl.used(problem)
    names = [sl.VARIABLES[i] for i in idx]

    def full(x):
        out = [0] * len(problem[0])
        for i, v in zip(idx, x):
            out[i] = v
        return out

    cons = [(c[0], lambda x, c=c: sl.violation(c, full(x))) for c in problem[1]]
    m, seen, best, optimum = judge(ctx, prob, cons, names, lambda x: sl.objective(problem, full(x)), pdict)
    want = set(itertools.product(*(range(problem[0][i][0], problem[0][i][1] + 1) for i in idx)))
    if seen != want:
        ctx.fail(f"the bits stand for {len(seen)} assignments instead of {len(want)}: missing {sorted(want - seen)[:3]}, "
                 f"not allowed {sorted(seen - want)[:3]}; problem {problem}")
    return best, optimum


def examine(inst, ctx):
    if inst[0] == "one":
        _, bounds, (x, y) = inst
        lo = sum(min(a * l, a * u) for a, (l, u) in zip((x, y), bounds))
        up = sum(max(a * l, a * u) for a, (l, u) in zip((x, y), bounds))
        n = 0
        for sense in sl.SENSES:
            for const in range(-up - 1, -lo + 2):
                c = (sl.KINDS[n % 6], (x, y), sense, const)
                problem = (bounds, [c], ((0, 0), 0) if n % 3 == 0 else ((0.25, -1), 2))
                if sl.satisfiable(problem):
                    run(ctx, problem, PENALTIES[n % 2])
                    if sl.LE == sense and const == -lo or sl.GE == sense and const == -up:
                        ctx.count("just_met")
                n += 1
    elif inst[0] in ("two", "three"):
        cons = [POOL[i] for i in inst[1:]]
        for pd in PENALTIES:
            problem = (THREE, cons, ((1, 0.5, -0.25), 1))
            if sl.satisfiable(problem):
                best, optimum = run(ctx, problem, pd)
                if pd is PENALTIES[2] and optimum is not None and abs(best - optimum) > 1e-6:
                    ctx.fail(f"lowest energy {best}, optimum {optimum}; problem {problem}")
    elif inst[0] == "railway":
        railway(ctx, *inst[1:])
    else:
        shipped_case(ctx, inst[1])
    ctx.sample(repr(inst))


def railway(ctx, name, d_max):
    ts, tt = sl.railway()[name]
    prob = lpx.build(ctx, ts, tt, d_max)
    vs = prob.variables()
    names = [v.name for v in vs]

    def viol(c):
        terms = [(names.index(v.name), a) for v, a in c.items()]

        def f(x):
            e = c.constant + sum(a * x[i] for i, a in terms)
            return max(e, 0) if c.sense < 0 else max(-e, 0) if c.sense > 0 else abs(e)
        return f

    cons = []
    for n, c in prob.constraints.items():
        kind = [k for k in sl.KINDS if n.startswith(k + "_")]
        if len(kind) != 1:
            ctx.fail(f"the kind of the constraint {n} is not known")
        cons.append((kind[0], viol(c)))
        ctx.count("railway_" + kind[0])
    terms = [(names.index(v.name), a) for v, a in prob.objective.items()]
    for pd in PENALTIES:
        _, seen, best, optimum = judge(ctx, prob, cons, names,
                                       lambda x: prob.objective.constant + sum(a * x[i] for i, a in terms), pd)
        want = set(itertools.product(*(range(v.lowBound, v.upBound + 1) for v in vs)))
        if seen != want:
            ctx.fail(f"the bits stand for {len(seen)} assignments instead of {len(want)}")
        if pd is PENALTIES[2] and optimum is not None and abs(best - optimum) > 1e-6:
            ctx.fail(f"lowest energy {best}, optimum {optimum}")


def shipped_case(ctx, name):
    import data_formatting.data_formatting as df
    import helpers
    from mc import shipped

    c, tr = shipped.case(ctx.repo, name), shipped.prepared(ctx.repo, name)
    with ctx.code("building the problem of the data set"):
        skip = df.get_skip_stations(tr)
        ts = helpers.make_train_set(tr, c.stations, c.table, skip)
        tt = helpers.make_timetable(tr, c.stations, skip, "16:00")
        prob = lpx.rs().create_linear_problem(ts, tt, 40, cat="Integer")
    with ctx.code("converting to the unconstrained quadratic model"):
        lpx.rs().convert_to_bqm(prob, PENALTIES[0])
    ctx.trace()
    ctx.state()


def finish(ctx, tier):
    missing = [k for k in sl.KINDS if not ctx.counts.get("railway_" + k)]
    if missing or not ctx.counts.get("just_met"):
        return f"not exercised: {missing}, constraints that are just met {ctx.counts.get('just_met', 0)}"
    return None
