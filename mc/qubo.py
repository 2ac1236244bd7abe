"""Exhaustive evaluation of unconstrained quadratic models.

`Model` finds by the interpreter of the code which bits of the model carry the
variables of the problem; the remaining (auxiliary) bits are minimised exactly,
by enumeration of each group of auxiliary bits that interact.
"""
import itertools

import dimod

from . import lpx


class Encoding:
    """what the bits stand for, found from the energies of the model without constraints
    whose objective is each variable in turn"""

    def __init__(self, ctx, prob):
        import pulp

        self.parts = {}
        for v in prob.variables():
            p = pulp.LpProblem("one", pulp.LpMinimize)
            p += pulp.lpSum([v])
            with ctx.code("converting to the unconstrained quadratic model"):
                bqm = lpx.rs().convert_to_bqm(p, {"objective": 1})[0]
            if any(x for x in bqm.quadratic.values()):
                raise ValueError("the encoding of a variable is not linear")
            self.parts[v.name] = ([(b, float(x)) for b, x in bqm.linear.items() if x], float(bqm.offset))

    def read(self, bits):
        return {n: c + sum(x for b, x in terms if bits[b]) for n, (terms, c) in self.parts.items()}


class Model:
    def __init__(self, bqm, interpreter, names):
        self.bits = list(bqm.variables)
        self.index = {b: i for i, b in enumerate(self.bits)}
        self.interpreter = interpreter
        self.names = list(names)
        self.offset = float(bqm.offset)
        self.h = [float(bqm.linear[b]) for b in self.bits]
        self.J = {}
        for (u, v), x in bqm.quadratic.items():
            if x:
                i, k = sorted((self.index[u], self.index[v]))
                self.J[(i, k)] = self.J.get((i, k), 0.0) + float(x)
        zero = [0] * len(self.bits)
        base = self.read(zero)
        self.carry = []
        for i in range(len(self.bits)):
            one = list(zero)
            one[i] = 1
            if self.read(one) != base:
                self.carry.append(i)
        carry = set(self.carry)
        self.aux = [i for i in range(len(self.bits)) if i not in carry]
        parent = {i: i for i in self.aux}

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x

        for (i, k), x in self.J.items():
            if i in parent and k in parent:
                parent[find(i)] = find(k)
        groups = {}
        for i in self.aux:
            groups.setdefault(find(i), []).append(i)
        self.groups = list(groups.values())
        self.patterns = sum(1 << len(g) for g in self.groups) or 1
        # per group: the fields as functions of the carrying bits
        self.cross = [[[(k, self.J[tuple(sorted((i, k)))]) for k in self.carry if tuple(sorted((i, k))) in self.J]
                       for i in g] for g in self.groups]

    def read(self, pattern):
        """values of the variables of the problem for a pattern of bits"""
        ss = dimod.SampleSet.from_samples([dict(zip(self.bits, pattern))], "BINARY", [0.0])
        out = self.interpreter(ss)
        sample = list(out.samples())
        if len(sample) != 1:
            raise ValueError(f"{len(sample)} samples instead of one")
        return tuple(sample[0][n] for n in self.names)

    def energy(self, pattern):
        e = self.offset
        for i, x in enumerate(pattern):
            if x:
                e += self.h[i]
        for (i, k), x in self.J.items():
            if pattern[i] and pattern[k]:
                e += x
        return e

    def lowest(self):
        """yields (pattern with auxiliary bits zero, lowest energy over them)"""
        n = len(self.bits)
        for values in itertools.product((0, 1), repeat=len(self.carry)):
            pattern = [0] * n
            for i, x in zip(self.carry, values):
                pattern[i] = x
            e = self.energy(pattern)
            for g, cross in zip(self.groups, self.cross):
                field = [self.h[i] + sum(x for k, x in c if pattern[k]) for i, c in zip(g, cross)]
                inner = [(a, b, self.J[tuple(sorted((g[a], g[b])))])
                         for a in range(len(g)) for b in range(a) if tuple(sorted((g[a], g[b]))) in self.J]
                best = 0.0
                for s in range(1, 1 << len(g)):
                    x = 0.0
                    for a, f in enumerate(field):
                        if s >> a & 1:
                            x += f
                    for a, b, f in inner:
                        if s >> a & 1 and s >> b & 1:
                            x += f
                    if x < best:
                        best = x
                e += best
            yield pattern, e
