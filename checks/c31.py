"""C31: the reported sizes of a problem are its own, and its solution is checked."""
import contextlib
import io
import itertools
import re

from mc import lpx, problems, ref_lp, small_lp

PROPERTY = "C31"
NAMES = (
    ((1, 11, 21), ("A", "B", "C")),
    ((94766, 421009, 42100), ("KO", "KO(STM)", "Ty")),
    (("Ks1", "s1", "z"), ("Ty-1", "Mi 1", "Bry")),
    (("Ic-2", "y-3", "z 4"), ("Gz/1", "Ty", "Kz")),
    (("z1", "y", "Delays"), ("y", "z", "Ty->Kz")),
)
RULES = ("Jd", "Josingle", "Jtrack", "Jswitch")
BOUND = {
    "quick": "three trains (two following, one against them) over three stations, 5 sets of names, every set of the rules lines, "
             "single tracks, station tracks, switches, d_max 1, 5, integer and continuous; for each every pattern of the first "
             "four order variables in 0, 1 and nearly so, and every one of all order variables alone at 0.5, 2 and -1; all "
             "unconstrained models of three variables with linear and quadratic terms from three values; the small railway "
             "problems of every rule and their unconstrained models",
    "thorough": "as quick with every pattern of the first seven order variables",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems"]


def instances(tier):
    for n in range(len(NAMES)):
        for k in range(len(RULES) + 1):
            for rules in itertools.combinations(RULES, k):
                yield ("problem", n, rules)
    for q in itertools.product((None, 0, 2), repeat=3):
        yield ("terms", q)
    for name in small_lp.railway():
        yield ("railway", name)


def three(n, rules):
    (i, j, k), (a, b, c) = NAMES[n]
    paths = {i: [a, b, c], j: [a, b, c], k: [c, b, a]}
    sets = {}
    if "Jd" in rules:
        sets["Jd"] = problems.lines(paths)
    if "Josingle" in rules:
        sets["Josingle"] = {(a, b): [[i, k], [j, k]], (b, c): [[i, k]]}
    if "Jtrack" in rules:
        sets["Jd"] = problems.lines(paths)
        sets["Jtrack"] = {b: [[i, j]]}
    if "Jswitch" in rules:
        sets["Jd"] = problems.lines(paths)
        sets["Jswitch"] = {a: [{i: "out", k: "in"}, {j: "out", k: "in"}], b: [{i: "in", j: "in"}]}
    ts = problems.sets(paths, **sets)
    return ts, problems.times(ts, {i: 0, j: 2, k: 1}, 3)


def judge(ctx, ts, tt, d_max, cat, what):
    import helpers

    prob = lpx.build(ctx, ts, tt, d_max, cat)
    delays = {lpx.delay_name(*key) for key in ref_lp.Rules(ts, tt, d_max).keys}
    variables = list(prob.variables())
    orders = [v for v in variables if v.name not in delays]
    others = [v for v in variables if v.name in delays]
    want = (len(orders), len(others), len(prob.constraints))
    with ctx.code(f"{what}: counting"):
        got = tuple(helpers.count_vars(prob))
    if got != want:
        ctx.fail(f"{what}: reported (order variables, other variables, constraints) {got} instead of {want}; "
                 f"variables {[v.name for v in variables]}")
    ctx.step()
    ctx.outcome(want)

    def printed():
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            helpers.check_count_vars(prob)
        return text.getvalue()

    late = (0, d_max, d_max / 2 if cat == "Continuous" else 1)
    some = orders[:7 if ctx.tier == "thorough" else 4]
    for values in itertools.product((0, 1, 1e-13, 1.0000000001), repeat=len(some)):
        for i, v in enumerate(others):
            v.varValue = late[i % len(late)]
        for v in orders:
            v.varValue = 0.0
        for v, x in zip(some, values):
            v.varValue = x
        with ctx.code(f"{what}: checking a solution with order variables {values}"):
            text = printed()
        sizes = [int(x) for x in re.findall(r"=\s*(\d+)", text)]
        if sizes != list(want):
            ctx.fail(f"{what}: printed sizes {text!r} instead of {want}")
        ctx.state()
        ctx.trace()
        ctx.step()
    for bad in orders:
        for x in (0.5, 2, -1):
            for v in orders:
                v.varValue = 1
            bad.varValue = x
            ctx.refused(printed, f"{what}: solution with {bad.name} = {x}")
            ctx.count("refused")
            ctx.state()
            ctx.trace()
    return prob


def examine(inst, ctx):
    import dimod
    import railway_solvers.railway_solvers as rs

    def sizes(bqm, what):
        want = (sum(1 for x in bqm.linear.values() if x != 0), sum(1 for x in bqm.quadratic.values() if x != 0))
        with ctx.code("counting the terms"):
            got = (rs.count_linear_fields(bqm), rs.count_quadratic_couplings(bqm))
        if got != want:
            ctx.fail(f"{what}: reported (fields, couplings) {got} instead of {want}")
        ctx.state()
        ctx.step(2)
        ctx.trace()
        ctx.outcome(want)

    if inst[0] == "problem":
        _, n, rules = inst
        ts, tt = three(n, rules)
        for d_max in (1, 5):
            for cat in ("Integer", "Continuous"):
                judge(ctx, ts, tt, d_max, cat, f"trains and stations {NAMES[n]}, rules {rules}, d_max {d_max}, {cat}")
        ctx.sample({"names": repr(NAMES[n]), "rules": list(rules)})
    elif inst[0] == "terms":
        pairs = (("a", "b"), ("a", "c"), ("b", "c"))
        for h in itertools.product((0, 0.5, -1), repeat=3):
            quadratic = {p: x for p, x in zip(pairs, inst[1]) if x is not None}
            bqm = dimod.BinaryQuadraticModel(dict(zip("abc", h)), quadratic, 1.5, "BINARY")
            sizes(bqm, f"fields {h}, couplings {quadratic}")
        ctx.count("models")
    else:
        ts, tt = small_lp.railway()[inst[1]]
        for d_max in (1, 3):
            prob = judge(ctx, ts, tt, d_max, "Integer", f"problem {inst[1]}, d_max {d_max}")
            with ctx.code("converting the problem"):
                bqm = rs.convert_to_bqm(prob, {"minimal_span": 2.5, "single_line": 2.5, "minimal_stay": 2.5,
                                               "track_occupation": 2.5, "switch": 2.5, "occupation": 2.5, "circulation": 2.5,
                                               "objective": 1})[0]
            sizes(bqm, f"unconstrained model of {inst[1]}")
        ctx.count("railway")


def finish(ctx, tier):
    if not ctx.counts.get("refused") or not ctx.counts.get("models") or not ctx.counts.get("railway"):
        return f"the exploration is vacuous: {ctx.counts}"
    return None
