"""The linear problems of the code, seen as sets of accepted delay vectors.

A linear problem accepts a vector of delays when some assignment of its order
variables satisfies every constraint.  `Accepted` decides this for every vector
of a finite grid: for each constraint and each value of its delay part the set
of order assignments that satisfy it is a bit mask, and a vector is accepted
when the masks of all constraints have a common bit (taken separately for
groups of order variables that share no constraint).
"""
import itertools
import re

EPS = 1e-6


def rs():
    import railway_solvers.railway_solvers as m

    return m


def delay_name(j, s):
    """name of a delay variable: the modelling library replaces -+[] ->/ by _"""
    return re.sub(r"[-+\[\] >/]", "_", f"Delays_{j}_{s}")


class Malformed(Exception):
    """the problem is not of the documented form"""


class Accepted:
    def __init__(self, prob, keys):
        """keys: the counted departures [(train, station)], the order of the
        components of a delay vector"""
        index = {delay_name(j, s): i for i, (j, s) in enumerate(keys)}
        if len(index) != len(keys):
            raise ValueError("ambiguous names in the alphabet")
        self.keys = list(keys)
        bits, self.delay_vars = {}, {}
        for v in prob.variables():
            if v.name in index:
                self.delay_vars[keys[index[v.name]]] = v
            elif v.name.startswith("Delays_"):
                raise Malformed(f"the variable {v.name} belongs to no counted departure")
            else:
                if (v.lowBound, v.upBound) != (0, 1) or v.cat != "Integer":
                    raise Malformed(f"the order variable {v.name} is not binary")
                bits[v.name] = len(bits)
        self.n_bits = len(bits)
        # groups of order variables that share a constraint
        parent = list(range(len(bits)))

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x

        raw = []
        for name, c in prob.constraints.items():
            delays, orders = [], []
            for v, a in c.items():
                if a == 0:
                    continue
                if v.name in index:
                    delays.append((index[v.name], float(a)))
                else:
                    orders.append((bits[v.name], float(a)))
            for b, _ in orders[1:]:
                parent[find(b)] = find(orders[0][0])
            raw.append((delays, orders, float(c.constant), c.sense))
        self.n_constraints = len(raw)
        groups = {}
        for b in range(len(bits)):
            groups.setdefault(find(b), []).append(b)
        self.groups = list(groups.values())
        if any(len(g) > 14 for g in self.groups):
            raise ValueError("too many tied order variables for the alphabet")
        where = {b: (gi, pos) for gi, g in enumerate(self.groups) for pos, b in enumerate(g)}
        plain, grouped = {}, [dict() for _ in self.groups]
        for delays, orders, const, sense in raw:
            key = tuple(sorted(delays))
            if not orders:
                plain.setdefault(key, []).append((const, sense))
                continue
            gi = where[orders[0][0]][0]
            cells = tuple(sorted((where[b][1], a) for b, a in orders))
            grouped[gi].setdefault(key, []).append((cells, const, sense))
        # one entry per delay part: all constraints with it are merged
        self.plain = [(list(k), v, {}) for k, v in plain.items()]
        self.grouped = [[(list(k), v, {}) for k, v in g.items()] for g in grouped]
        self.full = [(1 << (1 << len(g))) - 1 for g in self.groups]

    @staticmethod
    def _holds(x, sense):
        if sense > 0:
            return x >= -EPS
        if sense < 0:
            return x <= EPS
        return -EPS <= x <= EPS

    def _mask(self, cons, value, n):
        mask = 0
        for a in range(1 << n):
            ok = True
            for cells, const, sense in cons:
                x = value + const
                for pos, coef in cells:
                    if a >> pos & 1:
                        x += coef
                if not self._holds(x, sense):
                    ok = False
                    break
            if ok:
                mask |= 1 << a
        return mask

    def accepts(self, d):
        for terms, cons, memo in self.plain:
            x = 0.0
            for i, a in terms:
                x += a * d[i]
            ok = memo.get(x)
            if ok is None:
                ok = memo[x] = all(self._holds(x + c, s) for c, s in cons)
            if not ok:
                return False
        for gi, entries in enumerate(self.grouped):
            m = self.full[gi]
            for terms, cons, memo in entries:
                x = 0.0
                for i, a in terms:
                    x += a * d[i]
                k = memo.get(x)
                if k is None:
                    k = memo[x] = self._mask(cons, x, len(self.groups[gi]))
                m &= k
                if not m:
                    return False
        return True


def grid(n, d_max, step=1):
    values = []
    x = 0
    while x <= d_max:
        values.append(x)
        x += step
    return itertools.product(values, repeat=n)


def build(ctx, sets, timetable, d_max, cat="Integer"):
    with ctx.code("building the linear problem"):
        return rs().create_linear_problem(sets, timetable, d_max, cat)


def compare(ctx, sets, timetable, d_max, cat="Integer", step=1, prob=None, rules=None, tied=None):
    """explores every delay vector of the grid on the problem built by the code and on
    the reference; returns (accepted by the code, vectors).

    tied: called when the problem is the one of the reference only with the known tie
    of opposite trains at both ends of a section (finding of C17)"""
    from . import ref_lp

    if rules is None:
        rules = ref_lp.Rules(sets, timetable, d_max)
    if prob is None:
        prob = build(ctx, sets, timetable, d_max, cat)
    try:
        acc = Accepted(prob, rules.keys)
    except Malformed as e:
        ctx.fail(f"{e}; sets {sets}")
    if rules.both_ends():
        other = ref_lp.Rules(sets, timetable, d_max, tie_ends=True)
        if any(acc.accepts(d) != rules.accepts(d) for d in grid(len(rules.keys), d_max, step)):
            rules = other
            if tied:
                tied()
    for key, v in acc.delay_vars.items():
        if v.cat != cat or v.lowBound != 0 or v.upBound != d_max:
            ctx.fail(f"the delay of {key} is {v.cat} in [{v.lowBound}, {v.upBound}], requested {cat} in [0, {d_max}]")
    ctx.trace()
    n = yes = 0
    ref_accepts, code_accepts = rules.accepts, acc.accepts
    for d in grid(len(rules.keys), d_max, step):
        n += 1
        got = code_accepts(d)
        if got != ref_accepts(d):
            what = "accepts" if got else "refuses"
            why = "; ".join(rules.why(d)) or "no rule is broken"
            ctx.fail(f"the model {what} the delays {dict(zip(rules.keys, d))} (d_max {d_max}): {why}\n"
                     f"sets {sets}\ntimes {timetable}")
        yes += got
    ctx.state(n)
    ctx.step(n * acc.n_constraints)
    ctx.count("accepted", yes)
    ctx.count("refused", n - yes)
    ctx.outcome((n, yes))
    return yes, n
