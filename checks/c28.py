"""C28: the model built from the shipped files is the real traffic problem."""
import contextlib
import io
import itertools
import os
import runpy
import sys

from mc import lpx, recorded, ref_lp, shipped, traffic, zones

PROPERTY = "C28"
D_MAX = 40
BOUND = {
    "quick": "the 7 shipped data sets and the single-track line of its script, with every disturbance of the studies (10 + 36 "
             "+ 1 problems, largest delay 40, or 10): the exact set of accepted integer delay vectors by exploration of its "
             "zones; for the undisturbed data sets also every pair of trains with every pair of constant delays of 0..40 minutes",
    "thorough": "as quick with every pair of trains and delays also for the disturbances",
}
ASSUMPTIONS = ["the modelling library is the stand-in validated against recorded problems",
               "at an exact half of a minute both neighbouring integers count as rounding",
               "delays of trains that a data set does not contain are left out (known finding of C29)"]
SECONDS = 800
ORDER = ("KO_GLC", "KO_RCB", "KO_RCB_v2", "base", "Gt", "1track", "1track_Gt")


def instances(tier):
    for name in ORDER:
        yield ("shipped", name)
    yield ("wisla",)


class Exact:
    """zones and pairs of a linear problem of the code"""

    def __init__(self, prob, keys, d_max):
        acc = lpx.Accepted(prob, keys)
        self.acc, self.keys = acc, keys
        hard, choices, self.false = [], [], False

        def bounds(terms, const, sense):
            b = zones.bound([(i + 1, a) for i, a in terms], const, sense)
            if b is True:
                return []
            return None if b is False else b

        for terms, cons, _ in acc.plain:
            for const, sense in cons:
                b = bounds(terms, const, sense)
                if b is None:
                    self.false = True
                else:
                    hard += b
        for gi, entries in enumerate(acc.grouped):
            choice = []
            for a in range(1 << len(acc.groups[gi])):
                alt = []
                for terms, cons, _ in entries:
                    for cells, const, sense in cons:
                        b = bounds(terms, const + sum(x for pos, x in cells if a >> pos & 1), sense)
                        if b is None:
                            alt = None
                            break
                        alt += b
                    if alt is None:
                        break
                if alt is not None:
                    choice.append(alt)
            choices.append(choice)
        self.zones = zones.Problem(len(keys), d_max, hard, choices)

    def pairs(self, train):
        """{pair of trains: parts of the problem about these two}; train: train of each component"""
        out, single = {}, {}
        for terms, cons, memo in self.acc.plain:
            js = frozenset(train[i] for i, _ in terms)
            (single if len(js) < 2 else out).setdefault(js, ([], []))[0].append((terms, cons, memo))
        for gi, entries in enumerate(self.acc.grouped):
            js = frozenset(train[i] for terms, _, _ in entries for i, _ in terms)
            if len(js) <= 2:
                (single if len(js) < 2 else out).setdefault(js, ([], []))[1].append(gi)
        return out, single

    def part_accepts(self, part, d):
        acc = self.acc
        for terms, cons, memo in part[0]:
            x = sum(a * d[i] for i, a in terms)
            if not all(acc._holds(x + c, s) for c, s in cons):
                return False
        for gi in part[1]:
            m = acc.full[gi]
            for terms, cons, memo in acc.grouped[gi]:
                x = 0.0
                for i, a in terms:
                    x += a * d[i]
                k = memo.get(x)
                if k is None:
                    k = memo[x] = acc._mask(cons, x, len(acc.groups[gi]))
                m &= k
                if not m:
                    return False
        return True


class Reference:
    def __init__(self, ts, tt, d_max, tie_ends=False):
        self.rules = r = ref_lp.Rules(ts, tt, d_max, tie_ends=tie_ends)

        def bounds(c):
            i, k, need, _ = c
            return zones.bound([(x + 1, s) for x, s in ((i, 1.0), (k, -1.0)) if x >= 0], -need, 1)

        hard = [b for c in r.firm for b in self.listed(bounds(c))]
        choices = [[[b for c in side for b in self.listed(bounds(c))] for side in sides] for sides in r.classes]
        self.zones = zones.Problem(len(r.keys), d_max, hard, choices)

    @staticmethod
    def listed(b):
        return [] if b is True else [(0, 0, -1)] if b is False else b

    def pairs(self):
        r, out = self.rules, {}
        train = [j for j, _ in r.keys]
        for c in r.firm:
            js = frozenset(train[i] for i in c[:2] if i >= 0)
            if len(js) == 2:
                out.setdefault(js, ([], []))[0].append(c)
        for sides in r.classes:
            js = frozenset(train[i] for side in sides for c in side for i in c[:2] if i >= 0)
            if len(js) == 2:
                out.setdefault(js, ([], []))[1].append(sides)
        return out

    def part_accepts(self, part, d):
        holds = self.rules._holds
        return all(holds(c, d) for c in part[0]) and all(
            all(holds(c, d) for c in zero) or all(holds(c, d) for c in one) for zero, one in part[1])


def judge(ctx, prob, ts, tt, d_max, what, with_pairs):
    ref = Reference(ts, tt, d_max)
    try:
        code = Exact(prob, ref.rules.keys, d_max)
    except lpx.Malformed as e:
        ctx.fail(f"{what}: {e}")
    ctx.trace()
    found = zones.difference(code.zones, ref.zones)
    if found and ref.rules.both_ends():
        tied = Reference(ts, tt, d_max, tie_ends=True)
        if zones.difference(code.zones, tied.zones) is None:
            ref, found = tied, None
            ctx.count("tied_ends")
    ctx.state(code.zones.explored + ref.zones.explored)
    ctx.step(code.acc.n_constraints)
    ctx.count("choices", len(code.zones.choices))
    ctx.count("problems")
    ctx.outcome((what, len(code.zones.choices)))
    if found:
        d, by_code, complete = found
        late = {ref.rules.keys[i]: x for i, x in enumerate(d) if x}
        if complete and (code.acc.accepts(d) != by_code or ref.rules.accepts(d) == by_code):
            raise RuntimeError("the zones do not agree with the problems")
        why = "; ".join(ref.rules.why(d)) or "no rule is broken"
        verdict = "accepts" if by_code else "refuses"
        ctx.fail(f"{what}: the model {verdict} delays that the traffic {'does not allow' if by_code else 'allows'}"
                 f"{'' if complete else ' (other trains left aside)'}: {why}; delays {late}, others 0")
    if code.zones.empty:
        ctx.count("without_solution")
    if with_pairs:
        train = [j for j, _ in ref.rules.keys]
        mine, _ = code.pairs(train)
        theirs = ref.pairs()
        for js in sorted(set(mine) | set(theirs), key=sorted):
            a, b = sorted(js, key=str)
            ia = [i for i, j in enumerate(train) if j == a]
            ib = [i for i, j in enumerate(train) if j == b]
            d = [0] * len(train)
            pc, pr = mine.get(js, ([], [])), theirs.get(js, ([], []))
            yes = 0
            for x in range(d_max + 1):
                for i in ia:
                    d[i] = x
                for y in range(d_max + 1):
                    for i in ib:
                        d[i] = y
                    got = code.part_accepts(pc, d)
                    yes += got
                    if got != ref.part_accepts(pr, d):
                        # orders of more than two trains may say it elsewhere: only complete vectors decide
                        ctx.count("pairs_undecided")
            ctx.trace((d_max + 1) ** 2)
            ctx.state((d_max + 1) ** 2)
            ctx.count("pairs")
            ctx.outcome((what, a, b, yes))


def examine(inst, ctx):
    if inst[0] == "wisla":
        return wisla(ctx)
    name = inst[1]
    import data_formatting.data_formatting as df
    import helpers

    c = shipped.case(ctx.repo, name)
    generic = [k for k, v in recorded.GENERIC.items() if v == name]
    t_ref = "14:00" if generic else "16:00"
    with ctx.code("preparing the data set"):
        tr = shipped.prepared(ctx.repo, name)
        skip = df.get_skip_stations(tr)
        ts = helpers.make_train_set(tr, c.stations, c.table, skip)
        tt = helpers.make_timetable(tr, c.stations, skip, t_ref)
    rts, rtt = traffic.problem(ctx.repo, name, t_ref, tt["tau"])
    if generic:
        cases = list(enumerate(recorded.generic(generic[0], list(c.routes))))
    else:
        cases = [(k, d) for k, (n, d) in recorded.STUDY.items() if n == name]
    if not any(not d for _, d in cases):
        cases.insert(0, ("undisturbed", {}))
    for k, delays in cases:
        delays = {j: d for j, d in delays.items() if j in c.routes}
        with ctx.code("delaying trains"):
            late = dict(tt)
            for j, d in delays.items():
                late["initial_conditions"] = df.add_delay(late["initial_conditions"], j, d)
        prob = lpx.build(ctx, ts, late, D_MAX)
        judge(ctx, prob, rts, traffic.delayed(rts, rtt, delays), D_MAX, f"data set {name}, disturbance {k}",
              not delays or ctx.tier == "thorough")
    ctx.sample({"data set": name, "trains": len(c.routes), "disturbances": len(cases)})


def wisla(ctx):
    import railway_solvers.railway_solvers as rs

    built = []
    real = rs.create_linear_problem

    def recording(*a, **k):
        built.append(real(*a, **k))
        return built[-1]

    old = sys.argv
    rs.create_linear_problem = recording
    sys.argv = ["wisla_problems.py"]
    try:
        with ctx.code("running wisla_problems.py"), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(ctx.repo, "wisla_problems.py"), run_name="__main__")
    finally:
        sys.argv = old
        rs.create_linear_problem = real
    if len(built) != 1:
        ctx.fail(f"wisla_problems.py builds {len(built)} problems")
    ts, tt = traffic.wisla()
    judge(ctx, built[0], ts, tt, 10, "wisla_problems.py", True)
    ctx.sample({"script": "wisla_problems.py"})


def finish(ctx, tier):
    if ctx.counts.get("problems", 0) < 47 or not ctx.counts.get("choices") or not ctx.counts.get("pairs"):
        return f"the exploration is vacuous: {ctx.counts}"
    return None
