"""C20: the objective is the weighted delay and the report of a solution matches it."""
import itertools

from mc import lpx, problems, ref_lp

PROPERTY = "C20"
NAMES = (
    (1, 11, ("A", "B", "C")),
    (94766, 421009, ("KO", "KO(STM)", "Mi(IC)")),
    ("Ks1", "s1", ("1", "11", "21")),
    ("Ic-2", "R+3", ("KTC-CB", "Mi 1", "Ty/2")),
    ("a b", "[4]", ("GLC->Ty", "x", "x]")),
    (4, 41, ("KTC-CB", "KTC", "CB")),
)
WEIGHTS = (None, 0, 0.3, 1.75)
BOUND = {
    "quick": "6 sets of train and station names with every character the notation allows, two trains over three stations, "
             "every pattern of weights (none, 0, 0.3, 1.75) of the four counted departures, d_max 1, 2, 5, every delay vector "
             "(d_max 2) or every vector of delays 0, d_max (1, 5), held by the model and given from outside; every vector of "
             "fractional delays 0, 0.5, 1.75 with continuous variables",
    "thorough": "as quick with every delay vector for d_max 5",
}
ASSUMPTIONS = ["only departures that occur in the problem are reported on", "names do not become equal when written by the modelling library"]


def instances(tier):
    for n in range(len(NAMES)):
        for w in itertools.product(WEIGHTS, repeat=4):
            yield (n, w)


def examine(inst, ctx):
    n, w = inst
    j, jp, (a, b, c) = NAMES[n]
    paths = {j: [a, b, c], jp: [a, b, c]}
    ts = problems.sets(paths, Jd=problems.lines(paths), Jtrack={b: [[j, jp]]})
    keys = [(j, a), (j, b), (jp, a), (jp, b)]
    weights = {f"{x}_{s}": v for (x, s), v in zip(keys, w) if v is not None}
    tt = problems.times(ts, {j: 3, jp: -2}, 2, weights=weights, schedule={f"{jp}_{b}": 7})
    rs = lpx.rs()
    for d_max, cat in ((1, "Integer"), (2, "Integer"), (5, "Integer"), (2, "Continuous")):
        prob = lpx.build(ctx, ts, tt, d_max, cat)
        rules = ref_lp.Rules(ts, tt, d_max)
        variables = {v.name: v for v in prob.variables()}
        index = {k: i for i, k in enumerate(rules.keys)}
        names = {lpx.delay_name(*k): i for k, i in index.items()}
        if len(names) != 4:
            raise ValueError("ambiguous names in the alphabet")
        if prob.sense != 1:
            ctx.fail("the problem is not a minimisation")
        values = range(d_max + 1) if d_max == 2 or ctx.tier == "thorough" else (0, d_max)
        if cat == "Continuous":
            values = (0, 0.5, 1.75)
        for d in itertools.product(values, repeat=4):
            ctx.state()
            ctx.trace()
            want = sum(weights.get(f"{x}_{s}", 0) * d[i] for (x, s), i in index.items()) / d_max
            got = float(prob.objective.constant)
            for v, coef in prob.objective.items():
                if v.name in names:
                    got += coef * d[names[v.name]]
                elif coef:
                    ctx.fail(f"the objective counts the variable {v.name}")
            if abs(got - want) > 1e-9:
                ctx.fail(f"objective {got} of the delays {d} instead of {want}; weights {weights}, d_max {d_max}")
            ctx.outcome(round(want, 6))
            for outside in (False, True):
                if outside:
                    data = {v: 0 for v in variables}
                    data.update({name: d[i] for name, i in names.items()})
                    for v in variables.values():
                        v.varValue = d_max + 7  # must not be used
                    more = {"data": data}
                else:
                    for name, v in variables.items():
                        v.varValue = d[names[name]] if name in names else 0
                    more = {}
                shares = 0
                for (x, s), i in index.items():
                    ctx.step()
                    with ctx.code("reporting a departure"):
                        got = tuple(map(float, rs.delay_and_acctual_time(ts, tt, prob, x, s, **more)))
                    e = rules.earliest(x, s)
                    if any(abs(p - q) > 1e-9 for p, q in zip(got, (d[i], e + d[i], e))):
                        ctx.fail(f"train {x} at {s}, delay {d[i]}, earliest departure {e}: reported (delay, actual, "
                                 f"undisturbed) {got}")
                    with ctx.code("reporting the share in the objective"):
                        share = float(rs.impact_to_objective(prob, tt, x, s, d_max, **more))
                    if abs(share - weights.get(f"{x}_{s}", 0) * d[i] / d_max) > 1e-9:
                        ctx.fail(f"train {x} at {s}, delay {d[i]}, weights {weights}: reported share {share}")
                    shares += share
                if abs(shares - want) > 1e-9:
                    ctx.fail(f"the shares add up to {shares}, the objective is {want}")
    ctx.sample({"trains": [j, jp], "stations": [a, b, c], "weights": weights})
