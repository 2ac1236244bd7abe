"""Small linear problems, described by plain data.

A problem is (bounds, constraints, objective): bounds [(low, up)] of the integer
variables, constraints [(kind, coefficients, sense, constant)] that read
sum(coefficients * values) + constant  sense  0, objective (coefficients, constant).
"""
import itertools

VARIABLES = ("Delays_1_A", "y_1_2_A", "Delays_2_B", "z_1_2_A_B")
KINDS = ("minimal_span", "single_line", "minimal_stay", "track_occupation", "switch", "circulation")
LE, EQ, GE = "<=", "==", ">="
SENSES = (LE, EQ, GE)


def label(i, kind):
    return f"{kind}_44862_40518_Katowice_Gliwice_{i}"


def build(problem, permute=False):
    """the problem as the code gets it"""
    import pulp

    bounds, constraints, objective = problem
    xs = [pulp.LpVariable(VARIABLES[i], lo, up, cat="Integer") for i, (lo, up) in enumerate(bounds)]
    prob = pulp.LpProblem("Trains", pulp.LpMinimize)
    for i, (kind, coefs, sense, const) in enumerate(constraints):
        e = pulp.lpSum([a * x for a, x in zip(coefs, xs) if a])
        c = {LE: e + const <= 0, GE: e + const >= 0}[sense] if sense != EQ else e + const == 0
        prob += c, label(i, kind)
    if objective is not None:
        coefs, const = objective
        prob += pulp.lpSum([a * x for a, x in zip(coefs, xs) if a]) + const
    return prob


def used(problem):
    """indices of the variables that occur"""
    bounds, constraints, objective = problem
    return [i for i in range(len(bounds))
            if any(c[1][i] for c in constraints) or (objective is not None and objective[0][i])]


def assignments(problem):
    return itertools.product(*(range(lo, up + 1) for lo, up in problem[0]))


def value(constraint, x):
    return sum(a * v for a, v in zip(constraint[1], x)) + constraint[3]


def violation(constraint, x):
    e = value(constraint, x)
    if constraint[2] == LE:
        return max(e, 0)
    if constraint[2] == GE:
        return max(-e, 0)
    return abs(e)


def objective(problem, x):
    if problem[2] is None:
        return 0
    coefs, const = problem[2]
    return sum(a * v for a, v in zip(coefs, x)) + const


def satisfiable(problem):
    """every constraint alone holds for some values within the bounds"""
    bounds, constraints, _ = problem
    for c in constraints:
        lo = c[3] + sum(min(a * l, a * u) for a, (l, u) in zip(c[1], bounds))
        up = c[3] + sum(max(a * l, a * u) for a, (l, u) in zip(c[1], bounds))
        if (c[2] == LE and lo > 0) or (c[2] == GE and up < 0) or (c[2] == EQ and not lo <= 0 <= up):
            return False
    return True


def railway():
    """small railway problems of every rule: name -> (train set, timetable)"""
    from . import problems

    out = {}

    def add(name, paths, first, run=2, **more):
        listed = more.pop("sets", {})
        ts = problems.sets(paths, **listed)
        weights = {f"{j}_{s}": 0.5 * j + 0.25 * i for j, p in paths.items() for i, s in enumerate(p[:-1])}
        out[name] = ts, problems.times(ts, first, run, weights=weights, **more)

    two = {1: ["A", "B"], 2: ["A", "B"]}
    head = {1: ["A", "B"], 2: ["B", "A"]}
    far = {1: ["A", "B", "C"]}
    apart = {(2, "A", "B"): 1}
    add("follow", two, {1: 0, 2: 1}, sets={"Jd": problems.lines(two)})
    add("single", head, {1: 0, 2: 1}, sets={"Jd": problems.lines(head), "Josingle": {("A", "B"): [[1, 2]]}})
    add("stay", far, {1: 0}, sets={"Jd": problems.lines(far)}, schedule={"1_A": 0, "1_B": 4, "1_C": 6})
    add("track", {1: ["A", "B"], 2: ["B", "A"]}, {1: 0, 2: 1},
        sets={"Jd": problems.lines(head), "Jtrack": {"B": [[1, 2]]}})
    add("switch", two, {1: 0, 2: 0}, sets={"Jd": problems.lines(two, apart), "Jswitch": {"A": [{1: "out", 2: "out"}]}})
    add("circulation", head, {1: 0, 2: 4}, run=3, prep=2, sets={"Jd": problems.lines(head), "Jround": {"B": [[1, 2]]}})
    return out
