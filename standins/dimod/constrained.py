"""Constrained quadratic models."""
import itertools
import math

from .models import (
    QuadraticModel, BinaryQuadraticModel, Comparison, BINARY, INTEGER, SPIN, Sense,
    binary_encoding, _is_number,
)


class ConstrainedQuadraticModel:
    """objective plus labelled comparisons"""

    def __init__(self):
        self.objective = QuadraticModel()
        self.constraints = {}
        self._all = QuadraticModel()
        self._labels = itertools.count()

    @property
    def variables(self):
        return self._all.variables

    def vartype(self, v):
        return self._all.vartype(v)

    def lower_bound(self, v):
        return self._all.lower_bound(v)

    def upper_bound(self, v):
        return self._all.upper_bound(v)

    def num_constraints(self):
        return len(self.constraints)

    def add_variable(self, vartype, v=None, lower_bound=None, upper_bound=None):
        if isinstance(vartype, str) and vartype not in ("BINARY", "SPIN", "INTEGER"):
            vartype, v = v, vartype
        return self._all.add_variable(vartype, v, lower_bound, upper_bound)

    def set_objective(self, objective):
        if _is_number(objective):
            new = QuadraticModel()
            new.offset = objective
            objective = new
        if not isinstance(objective, QuadraticModel):
            objective = self._iterable_to_qm(objective)
        self._all._adopt(objective)
        self.objective = objective.copy()

    def add_constraint(self, data, *args, **kwargs):
        if isinstance(data, Comparison):
            return self.add_constraint_from_comparison(data, *args, **kwargs)
        if isinstance(data, QuadraticModel):
            return self.add_constraint_from_model(data, *args, **kwargs)
        if hasattr(data, "__iter__"):
            return self.add_constraint_from_iterable(data, *args, **kwargs)
        raise TypeError("unexpected data format: %r" % (data,))

    def add_constraint_from_comparison(self, comp, label=None, copy=True, weight=None, penalty=None):
        return self.add_constraint_from_model(comp.lhs, comp.sense, comp.rhs, label=label)

    def add_constraint_from_model(self, qm, sense, rhs=0, label=None, copy=True):
        if label is None:
            label = "c%d" % next(self._labels)
        if label in self.constraints:
            raise ValueError("a constraint with that label already exists")
        self._all._adopt(qm)
        # constants are moved to the right-hand side
        lhs = qm.copy()
        rhs = rhs - lhs.offset
        lhs.offset = 0
        self.constraints[label] = Comparison(lhs, sense.value if isinstance(sense, Sense) else sense, rhs)
        return label

    def add_constraint_from_iterable(self, iterable, sense, rhs=0, label=None, **kwargs):
        return self.add_constraint_from_model(self._iterable_to_qm(iterable), sense, rhs, label=label)

    def _iterable_to_qm(self, iterable):
        qm = QuadraticModel()
        for *variables, bias in iterable:
            if len(variables) > 2:
                raise ValueError("too many variables in a term")
            for v in variables:
                qm.add_variable(self.vartype(v), v, self.lower_bound(v), self.upper_bound(v))
            if not variables:
                qm.offset += bias
            elif len(variables) == 1:
                qm.linear[variables[0]] += bias
            else:
                qm.quadratic.bump(variables[0], variables[1], bias)
        return qm

    def violations(self, sample, skip_satisfied=False, clip=False):
        out = {}
        for label, c in self.constraints.items():
            lhs = c.lhs.energy(sample)
            if c.sense == "==":
                viol = abs(lhs - c.rhs)
            elif c.sense == "<=":
                viol = lhs - c.rhs
            else:
                viol = c.rhs - lhs
            out[label] = max(viol, 0) if clip else viol
        return out

    def check_feasible(self, sample, rtol=1e-6, atol=1e-8):
        return all(v <= atol + rtol * abs(self.constraints[k].rhs)
                   for k, v in self.violations(sample).items())


CQM = ConstrainedQuadraticModel


def cqm_to_bqm(cqm, lagrange_multiplier=None):
    """quadratic penalty model of a constrained model with linear constraints"""
    bqm = BinaryQuadraticModel(BINARY)
    integers = {}
    for v in cqm.variables:
        vt = cqm.vartype(v)
        if vt == BINARY:
            bqm.add_variable(BINARY, v)
        elif vt == INTEGER:
            if cqm.lower_bound(v) != 0:
                raise ValueError("integer variables must have a lower bound of 0")
            integers[v] = binary_encoding(v, int(cqm.upper_bound(v)))

    def terms(qm):
        for v, b in qm.linear.items():
            if v in integers:
                for u, c in integers[v].linear.items():
                    yield u, c * b
            else:
                yield v, b

    for v, b in terms(cqm.objective):
        bqm.add_linear(v, b)
    bqm.offset += cqm.objective.offset

    if lagrange_multiplier is None:
        biases = [abs(b) for b in bqm.linear.values()] or [0]
        lagrange_multiplier = 10 * max(biases) or 10

    for n, (label, c) in enumerate(cqm.constraints.items()):
        ts = list(terms(c.lhs))
        if c.sense == "==":
            bqm.add_linear_equality_constraint(ts, lagrange_multiplier, -c.rhs)
            continue
        sign = 1 if c.sense == "<=" else -1
        ts = [(v, sign * b) for v, b in ts]
        rhs = sign * c.rhs
        low = sum(b for _, b in ts if b < 0)
        ub = int(rhs - low)
        if ub > 0:
            num = int(math.floor(math.log2(ub)))
            coeffs = [2 ** j for j in range(num)]
            if ub - 2 ** num >= 0:
                coeffs.append(ub - 2 ** num + 1)
            ts += [("slack_%s_%d" % (label, j), s) for j, s in enumerate(coeffs)]
        bqm.add_linear_equality_constraint(ts, lagrange_multiplier, -rhs)

    def inverter(sample):
        out = {}
        for v in cqm.variables:
            if v in integers:
                out[v] = sum(b * sample[u] for u, b in integers[v].linear.items())
            else:
                out[v] = sample[v]
        return out

    return bqm, inverter
