"""Exact search used as the solver behind the pulp stand-in.

Depth-first enumeration of the integer variables with range propagation and a
bound on the objective.  Exhaustive: every branch is either explored or cut by
a constraint that cannot hold or by an objective already beaten.
"""
EPS = 1e-9


class Search:
    def __init__(self, lp):
        self.vars = list(lp.variables())
        self.idx = {v.name: i for i, v in enumerate(self.vars)}
        self.isint = [v.cat == "Integer" for v in self.vars]
        self.lb0 = [v.lowBound for v in self.vars]
        self.ub0 = [v.upBound for v in self.vars]
        self.cons = []  # sum a_i x_i >= b
        for c in lp.constraints.values():
            terms = [(self.idx[v.name], float(a)) for v, a in c.items() if a != 0]
            b = -float(c.constant)
            if c.sense >= 0:
                self.cons.append((terms, b))
            if c.sense <= 0:
                self.cons.append(([(i, -a) for i, a in terms], -b))
        self.obj = [(self.idx[v.name], float(a)) for v, a in lp.objective.items()] if lp.objective else []
        self.obj0 = float(lp.objective.constant) if lp.objective else 0.0
        self.uses = [[] for _ in self.vars]
        for k, (terms, _) in enumerate(self.cons):
            for i, _ in terms:
                self.uses[i].append(k)
        self.nodes = 0

    def propagate(self, lb, ub, queue):
        inq = set(queue)
        queue = list(queue)
        while queue:
            k = queue.pop()
            inq.discard(k)
            terms, b = self.cons[k]
            top = 0.0
            for i, a in terms:
                top += a * (ub[i] if a > 0 else lb[i])
            if top < b - EPS:
                return False
            for i, a in terms:
                rest = top - a * (ub[i] if a > 0 else lb[i])
                need = (b - rest) / a
                if a > 0:
                    if self.isint[i]:
                        need = -((-(need - EPS)) // 1)
                    if need > lb[i] + EPS:
                        lb[i] = need
                        if lb[i] > ub[i] + EPS:
                            return False
                        for q in self.uses[i]:
                            if q not in inq:
                                inq.add(q)
                                queue.append(q)
                else:
                    if self.isint[i]:
                        need = (need + EPS) // 1
                    if need < ub[i] - EPS:
                        ub[i] = need
                        if lb[i] > ub[i] + EPS:
                            return False
                        for q in self.uses[i]:
                            if q not in inq:
                                inq.add(q)
                                queue.append(q)
        return True

    def bound(self, lb, ub):
        return self.obj0 + sum(a * (lb[i] if a > 0 else ub[i]) for i, a in self.obj)

    def run(self):
        best = [None, float("inf")]
        lb, ub = [float(x) for x in self.lb0], [float(x) for x in self.ub0]
        if not self.propagate(lb, ub, range(len(self.cons))):
            return None
        order = sorted((i for i in range(len(self.vars)) if self.isint[i]),
                       key=lambda i: (self.ub0[i] - self.lb0[i], i))
        stack = [(lb, ub)]
        while stack:
            lb, ub = stack.pop()
            self.nodes += 1
            if self.bound(lb, ub) >= best[1] - EPS:
                continue
            # the smallest point of the box is feasible for difference constraints
            cand = list(lb)
            if self.feasible(cand):
                val = self.obj0 + sum(a * cand[i] for i, a in self.obj)
                if val < best[1] - EPS:
                    best = [cand, val]
                if all(a >= 0 for _, a in self.obj):
                    continue
            pick = next((i for i in order if lb[i] < ub[i] - EPS), None)
            if pick is None:
                continue
            if self.ub0[pick] - self.lb0[pick] <= 1:
                vals = [lb[pick], ub[pick]]
            else:
                vals = [lb[pick], None]
            children = []
            for x in vals:
                l2, u2 = list(lb), list(ub)
                if x is None:
                    l2[pick] += 1
                else:
                    l2[pick] = u2[pick] = x
                if self.propagate(l2, u2, self.uses[pick]):
                    children.append((self.bound(l2, u2), l2, u2))
            children.sort(key=lambda t: -t[0])
            stack.extend((l, u) for _, l, u in children)
        if best[0] is None:
            return None
        return {v.name: best[0][i] for i, v in enumerate(self.vars)}

    def feasible(self, x):
        for terms, b in self.cons:
            if sum(a * x[i] for i, a in terms) < b - EPS:
                return False
        return True


def solve(lp):
    """{variable name: value} of an optimum, None when infeasible"""
    return Search(lp).run()
