"""Stand-in for the modelling layer of PuLP 2.5.1.

Only the modelling layer is reproduced (variables, affine expressions,
constraints, problems); the solver behind ``LpProblem.solve`` is whatever the
harness installs with ``set_backend``.  Semantics that the code under test can
observe are kept: sanitised names, expressions normalised to ``expr sense 0``
with a separate constant, duplicate constraint names refused, ``variables()``
sorted by name, a pure expression becoming the objective.
"""
from collections import OrderedDict
from collections.abc import Iterable
import itertools
import math
import warnings

from . import constants as const
from .constants import *  # noqa: F401,F403

_backend = None


def set_backend(func):
    """func(problem) -> {variable name: value} or None when infeasible"""
    global _backend
    _backend = func


class LpElement(object):
    """Base class for LpVariable and LpConstraintVar"""

    illegal_chars = "-+[] ->/"
    expression = "_" * len(illegal_chars)
    trans = str.maketrans(illegal_chars, expression)

    def setName(self, name):
        if name:
            self.__name = str(name).translate(self.trans)
        else:
            self.__name = None

    def getName(self):
        return self.__name

    name = property(fget=getName, fset=setName)

    def __init__(self, name):
        self.name = name
        self.hash = id(self)
        self.modified = True

    def __hash__(self):
        return self.hash

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name

    def __neg__(self):
        return -LpAffineExpression(self)

    def __pos__(self):
        return self

    def __bool__(self):
        return True

    def __add__(self, other):
        return LpAffineExpression(self) + other

    def __radd__(self, other):
        return LpAffineExpression(self) + other

    def __sub__(self, other):
        return LpAffineExpression(self) - other

    def __rsub__(self, other):
        return other - LpAffineExpression(self)

    def __mul__(self, other):
        return LpAffineExpression(self) * other

    def __rmul__(self, other):
        return LpAffineExpression(self) * other

    def __div__(self, other):
        return LpAffineExpression(self) / other

    def __truediv__(self, other):
        return LpAffineExpression(self) / other

    def __rdiv__(self, other):
        raise TypeError("Expressions cannot be divided by a variable")

    def __le__(self, other):
        return LpAffineExpression(self) <= other

    def __ge__(self, other):
        return LpAffineExpression(self) >= other

    def __eq__(self, other):
        return LpAffineExpression(self) == other

    def __ne__(self, other):
        if isinstance(other, LpVariable):
            return self.name is not other.name
        if isinstance(other, LpAffineExpression):
            if other.isAtomic():
                return self is not other.atom()
            return 1
        return 1


class LpVariable(LpElement):
    """This class models an LP Variable with the specified associated parameters"""

    def __init__(self, name, lowBound=None, upBound=None, cat=const.LpContinuous, e=None):
        LpElement.__init__(self, name)
        self._lowbound_original = self.lowBound = lowBound
        self._upbound_original = self.upBound = upBound
        self.cat = cat
        self.varValue = None
        self.dj = None
        if cat == const.LpBinary:
            self.lowBound = 0
            self.upBound = 1
            self.cat = const.LpInteger
        if e:
            self.add_expression(e)

    def add_expression(self, e):
        self.expression = e

    @classmethod
    def matrix(cls, name, indexs, lowBound=None, upBound=None, cat=const.LpContinuous, indexStart=None):
        indexStart = [] if indexStart is None else indexStart
        if not isinstance(indexs, tuple):
            indexs = (indexs,)
        if "%" not in name:
            name += "_%s" * len(indexs)
        index = indexs[0]
        indexs = indexs[1:]
        if len(indexs) == 0:
            return [
                LpVariable(name % tuple(indexStart + [i]), lowBound, upBound, cat)
                for i in index
            ]
        return [
            LpVariable.matrix(name, indexs, lowBound, upBound, cat, indexStart + [i])
            for i in index
        ]

    @classmethod
    def dicts(cls, name, indexs=None, lowBound=None, upBound=None, cat=const.LpContinuous,
              indexStart=None, indices=None):
        if indexs is None:
            indexs = indices
        indexStart = [] if indexStart is None else indexStart
        if not isinstance(indexs, tuple):
            indexs = (indexs,)
        if "%" not in name:
            name += "_%s" * len(indexs)

        index = indexs[0]
        indexs = indexs[1:]
        d = {}
        if len(indexs) == 0:
            for i in index:
                d[i] = LpVariable(name % tuple(indexStart + [str(i)]), lowBound, upBound, cat)
        else:
            for i in index:
                d[i] = LpVariable.dicts(
                    name, indexs, lowBound, upBound, cat, indexStart + [i]
                )
        return d

    @classmethod
    def dict(cls, name, indexs, lowBound=None, upBound=None, cat=const.LpContinuous):
        if not isinstance(indexs, tuple):
            indexs = (indexs,)
        if "%" not in name:
            name += "_%s" * len(indexs)
        lists = indexs
        if len(indexs) > 1:
            res = list(itertools.product(*lists))
        else:
            res = list(indexs[0])
        d = {}
        for i in res:
            key = i if isinstance(i, tuple) else (i,)
            d[i] = LpVariable(name % key, lowBound, upBound, cat)
        return d

    def getLb(self):
        return self.lowBound

    def getUb(self):
        return self.upBound

    def bounds(self, low, up):
        self.lowBound = low
        self.upBound = up
        self.modified = True

    def positive(self):
        self.bounds(0, None)

    def value(self):
        return self.varValue

    def setInitialValue(self, val, check=True):
        self.varValue = val
        return True

    def fixValue(self):
        val = self.varValue
        if val is not None:
            self.bounds(val, val)

    def unfixValue(self):
        self.bounds(self._lowbound_original, self._upbound_original)

    def round(self, epsInt=1e-5, eps=1e-7):
        if self.varValue is not None:
            if self.cat == const.LpInteger and abs(round(self.varValue) - self.varValue) <= epsInt:
                self.varValue = round(self.varValue)

    def roundedValue(self, eps=1e-5):
        if (self.cat == const.LpInteger and self.varValue is not None
                and abs(self.varValue - round(self.varValue)) <= eps):
            return round(self.varValue)
        return self.varValue

    def valueOrDefault(self):
        if self.varValue is not None:
            return self.varValue
        if self.lowBound is not None:
            if self.upBound is not None:
                if 0 >= self.lowBound and 0 <= self.upBound:
                    return 0
                return self.lowBound if self.lowBound >= 0 else self.upBound
            return 0 if 0 >= self.lowBound else self.lowBound
        if self.upBound is not None:
            return 0 if 0 <= self.upBound else self.upBound
        return 0

    def valid(self, eps):
        if self.name == "__dummy" and self.varValue is None:
            return True
        if self.varValue is None:
            return False
        if self.upBound is not None and self.varValue > self.upBound + eps:
            return False
        if self.lowBound is not None and self.varValue < self.lowBound - eps:
            return False
        if self.cat == const.LpInteger and abs(round(self.varValue) - self.varValue) > eps:
            return False
        return True

    def isBinary(self):
        return self.cat == const.LpInteger and self.lowBound == 0 and self.upBound == 1

    def isInteger(self):
        return self.cat == const.LpInteger

    def isFree(self):
        return self.lowBound is None and self.upBound is None

    def isConstant(self):
        return self.lowBound is not None and self.upBound == self.lowBound

    def isPositive(self):
        return self.lowBound == 0 and self.upBound is None

    def toDict(self):
        return dict(lowBound=self.lowBound, upBound=self.upBound, cat=self.cat,
                    varValue=self.varValue, dj=self.dj, name=self.name)

    to_dict = toDict

    def __ne__(self, other):
        if isinstance(other, LpElement):
            return self.name is not other.name
        if isinstance(other, LpAffineExpression):
            if other.isAtomic():
                return self is not other.atom()
            return 1
        return 1

    __hash__ = LpElement.__hash__


class LpAffineExpression(OrderedDict):
    """A linear combination of LpVariables with a constant"""

    trans = LpElement.trans

    def setName(self, name):
        if name:
            self.__name = str(name).translate(self.trans)
        else:
            self.__name = None

    def getName(self):
        return self.__name

    name = property(fget=getName, fset=setName)

    def __init__(self, e=None, constant=0, name=None):
        self.name = name
        if e is None:
            e = {}
        if isinstance(e, LpAffineExpression):
            self.constant = e.constant
            super().__init__(list(e.items()))
        elif isinstance(e, dict):
            self.constant = constant
            super().__init__(list(e.items()))
        elif isinstance(e, Iterable):
            self.constant = constant
            super().__init__(e)
        elif isinstance(e, LpElement):
            self.constant = 0
            super().__init__([(e, 1)])
        else:
            self.constant = e
            super().__init__()

    def isAtomic(self):
        return len(self) == 1 and self.constant == 0 and list(self.values())[0] == 1

    def isNumericalConstant(self):
        return len(self) == 0

    def atom(self):
        return list(self.keys())[0]

    def __bool__(self):
        return (float(self.constant) != 0.0) or len(self) > 0

    def value(self):
        s = self.constant
        for v, x in self.items():
            if v.varValue is None:
                return None
            s += v.varValue * x
        return s

    def valueOrDefault(self):
        s = self.constant
        for v, x in self.items():
            s += v.valueOrDefault() * x
        return s

    def addterm(self, key, value):
        y = self.get(key, 0)
        if y:
            y += value
            self[key] = y
        else:
            self[key] = value

    def emptyCopy(self):
        return LpAffineExpression()

    def copy(self):
        return LpAffineExpression(self)

    def sorted_keys(self):
        return sorted(self.keys(), key=lambda v: v.name)

    def __str__(self, constant=1):
        s = ""
        for v in self.sorted_keys():
            val = self[v]
            if val < 0:
                s += "-" if not s else " - "
                val = -val
            elif s:
                s += " + "
            s += str(v) if val == 1 else "%s*%s" % (val, v)
        if constant:
            if s == "":
                s = str(self.constant)
            elif self.constant < 0:
                s += " - " + str(-self.constant)
            elif self.constant > 0:
                s += " + " + str(self.constant)
        elif s == "":
            s = "0"
        return s

    def __repr__(self):
        parts = [str(self[v]) + "*" + str(v) for v in self.sorted_keys()]
        parts.append(str(self.constant))
        return " + ".join(parts)

    def addInPlace(self, other):
        if isinstance(other, int) and other == 0:
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, 1)
        elif isinstance(other, LpAffineExpression):
            self.constant += other.constant
            for v, x in other.items():
                self.addterm(v, x)
        elif isinstance(other, dict):
            for e in other.values():
                self.addInPlace(e)
        elif isinstance(other, list) or isinstance(other, Iterable):
            for e in other:
                self.addInPlace(e)
        else:
            self.constant += other
        return self

    def subInPlace(self, other):
        if isinstance(other, int) and other == 0:
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, -1)
        elif isinstance(other, LpAffineExpression):
            self.constant -= other.constant
            for v, x in other.items():
                self.addterm(v, -x)
        elif isinstance(other, dict):
            for e in other.values():
                self.subInPlace(e)
        elif isinstance(other, list) or isinstance(other, Iterable):
            for e in other:
                self.subInPlace(e)
        else:
            self.constant -= other
        return self

    def __neg__(self):
        e = self.emptyCopy()
        e.constant = -self.constant
        for v, x in self.items():
            e[v] = -x
        return e

    def __pos__(self):
        return self

    def __add__(self, other):
        return self.copy().addInPlace(other)

    def __radd__(self, other):
        return self.copy().addInPlace(other)

    def __iadd__(self, other):
        return self.addInPlace(other)

    def __sub__(self, other):
        return self.copy().subInPlace(other)

    def __rsub__(self, other):
        return (-self).addInPlace(other)

    def __isub__(self, other):
        return self.subInPlace(other)

    def __mul__(self, other):
        e = self.emptyCopy()
        if isinstance(other, LpAffineExpression):
            e.constant = self.constant * other.constant
            if len(other):
                if len(self):
                    raise TypeError("Non-constant expressions cannot be multiplied")
                c = self.constant
                if c != 0:
                    for v, x in other.items():
                        e[v] = c * x
            else:
                c = other.constant
                if c != 0:
                    for v, x in self.items():
                        e[v] = c * x
        elif isinstance(other, LpVariable):
            return self * LpAffineExpression(other)
        else:
            if other != 0:
                e.constant = self.constant * other
                for v, x in self.items():
                    e[v] = other * x
        return e

    def __rmul__(self, other):
        return self * other

    def __div__(self, other):
        if isinstance(other, (LpAffineExpression, LpVariable)):
            if len(LpAffineExpression(other)):
                raise TypeError("Expressions cannot be divided by a non-constant expression")
            other = other.constant
        e = self.emptyCopy()
        e.constant = self.constant / other
        for v, x in self.items():
            e[v] = x / other
        return e

    def __truediv__(self, other):
        return self.__div__(other)

    def __rdiv__(self, other):
        raise TypeError("Expressions cannot be divided by a variable")

    def __le__(self, other):
        if isinstance(other, (int, float)):
            return LpConstraint(self, const.LpConstraintLE, rhs=other)
        return LpConstraint(self - other, const.LpConstraintLE)

    def __ge__(self, other):
        if isinstance(other, (int, float)):
            return LpConstraint(self, const.LpConstraintGE, rhs=other)
        return LpConstraint(self - other, const.LpConstraintGE)

    def __eq__(self, other):
        if isinstance(other, (int, float)):
            return LpConstraint(self, const.LpConstraintEQ, rhs=other)
        return LpConstraint(self - other, const.LpConstraintEQ)

    __hash__ = None

    def toDict(self):
        return [dict(name=k.name, value=v) for k, v in self.items()]

    to_dict = toDict


class LpConstraint(LpAffineExpression):
    """An LP constraint: expression sense 0, the constant kept apart"""

    def __init__(self, e=None, sense=const.LpConstraintEQ, name=None, rhs=None):
        LpAffineExpression.__init__(self, e, name=name)
        if rhs is not None:
            self.constant -= rhs
        self.sense = sense
        self.pi = None
        self.slack = None
        self.modified = True

    def getLb(self):
        if self.sense in (const.LpConstraintGE, const.LpConstraintEQ):
            return -self.constant
        return None

    def getUb(self):
        if self.sense in (const.LpConstraintLE, const.LpConstraintEQ):
            return -self.constant
        return None

    def __str__(self):
        s = LpAffineExpression.__str__(self, 0)
        if self.sense is not None:
            s += " " + const.LpConstraintSenses[self.sense] + " " + str(-self.constant)
        return s

    def __repr__(self):
        return LpAffineExpression.__repr__(self) + " " + const.LpConstraintSenses[self.sense] + " 0"

    def changeRHS(self, RHS):
        self.constant = -RHS
        self.modified = True

    def copy(self):
        return LpConstraint(self, self.sense)

    def emptyCopy(self):
        return LpConstraint(sense=self.sense)

    def __le__(self, other):
        raise TypeError("comparison of constraints")

    __ge__ = __le__

    def __eq__(self, other):
        return LpAffineExpression.__eq__(self, other)

    __hash__ = None

    def valid(self, eps=0):
        val = self.value()
        if self.sense == const.LpConstraintEQ:
            return abs(val) <= eps
        return val * self.sense >= -1 * eps

    def toDict(self):
        return dict(sense=self.sense, pi=self.pi, constant=self.constant, name=self.name,
                    coefficients=LpAffineExpression.toDict(self))

    to_dict = toDict


class LpProblem(object):
    """An LP Problem"""

    def __init__(self, name="NoName", sense=const.LpMinimize):
        if " " in name:
            warnings.warn("Spaces are not permitted in the name. Converted to '_'")
            name = name.replace(" ", "_")
        self.objective = None
        self.constraints = OrderedDict()
        self.name = name
        self.sense = sense
        self.sos1 = {}
        self.sos2 = {}
        self.status = const.LpStatusNotSolved
        self.sol_status = const.LpSolutionNoSolutionFound
        self.noOverlap = 1
        self.solver = None
        self.solverModel = None
        self.modifiedVariables = []
        self.modifiedConstraints = []
        self.resolveOK = False
        self._variables = []
        self._variable_ids = {}
        self.dummyVar = None
        self.solutionTime = 0
        self.solutionCpuTime = 0
        self.lastUnused = 0

    def __repr__(self):
        string = self.name + ":\n"
        string += "MINIMIZE\n" if self.sense == 1 else "MAXIMIZE\n"
        string += repr(self.objective) + "\n"
        if self.constraints:
            string += "SUBJECT TO\n"
            for n, c in self.constraints.items():
                string += "%s: %s\n" % (n, c)
        return string

    def copy(self):
        lpcopy = LpProblem(name=self.name, sense=self.sense)
        if self.objective is not None:
            lpcopy.objective = self.objective.copy()
        lpcopy.constraints = OrderedDict((k, v.copy()) for k, v in self.constraints.items())
        return lpcopy

    deepcopy = copy

    def addVariable(self, variable):
        if variable.hash not in self._variable_ids:
            self._variables.append(variable)
            self._variable_ids[variable.hash] = variable

    def addVariables(self, variables):
        for v in variables:
            self.addVariable(v)

    def variables(self):
        if self.objective:
            self.addVariables(list(self.objective.keys()))
        for c in self.constraints.values():
            self.addVariables(list(c.keys()))
        self._variables.sort(key=lambda v: v.name)
        return self._variables

    def variablesDict(self):
        return {v.name: v for v in self.variables()}

    def add(self, constraint, name=None):
        self.addConstraint(constraint, name)

    def unusedConstraintName(self):
        self.lastUnused += 1
        while 1:
            s = "_C%d" % self.lastUnused
            if s not in self.constraints:
                break
            self.lastUnused += 1
        return s

    def addConstraint(self, constraint, name=None):
        if not isinstance(constraint, LpConstraint):
            raise TypeError("Can only add LpConstraint objects")
        if name:
            constraint.name = name
        if constraint.name:
            name = constraint.name
        else:
            name = self.unusedConstraintName()
        if name in self.constraints:
            if self.noOverlap:
                raise const.PulpError("overlapping constraint names: " + name)
            print("Warning: overlapping constraint names:", name)
        self.constraints[name] = constraint
        self.modifiedConstraints.append(constraint)
        self.addVariables(list(constraint.keys()))

    def setObjective(self, obj):
        if isinstance(obj, LpVariable):
            obj = obj + 0.0
        self.objective = obj
        self.resolveOK = False

    def __iadd__(self, other):
        if isinstance(other, tuple):
            other, name = other
        else:
            name = None
        if other is True:
            return self
        if other is False:
            raise TypeError("A False object cannot be passed as a constraint")
        if isinstance(other, LpConstraint):
            self.addConstraint(other, name)
        elif isinstance(other, LpAffineExpression):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = other
            if name is not None:
                self.objective.name = name
        elif isinstance(other, LpVariable) or isinstance(other, (int, float)):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = LpAffineExpression(other)
            self.objective.name = name
        else:
            raise TypeError(
                "Can only add LpConstraintVar, LpConstraint, LpAffineExpression or True objects")
        return self

    def extend(self, other, use_objective=True):
        if isinstance(other, dict):
            for name in other:
                self.constraints[name] = other[name]
        elif isinstance(other, LpProblem):
            for name, c in other.constraints.items():
                self.constraints[name] = c
            if use_objective:
                self.objective += other.objective
        else:
            for c in other:
                if isinstance(c, tuple):
                    name, c = c
                else:
                    name = None
                if not name:
                    name = c.name
                if not name:
                    name = self.unusedConstraintName()
                self.constraints[name] = c

    def coefficients(self, translation=None):
        coefs = []
        for cst, c in self.constraints.items():
            coefs.extend([(v.name, cst, x) for v, x in c.items()])
        return coefs

    def numVariables(self):
        return len(self._variable_ids)

    def numConstraints(self):
        return len(self.constraints)

    def getSense(self):
        return self.sense

    def isMIP(self):
        return 1 if any(v.cat == const.LpInteger for v in self.variables()) else 0

    def roundSolution(self, epsInt=1e-5, eps=1e-7):
        for v in self.variables():
            v.round(epsInt, eps)

    def valid(self, eps=0):
        return (all(v.valid(eps) for v in self.variables())
                and all(c.valid(eps) for c in self.constraints.values()))

    def infeasibilityGap(self, mip=1):
        gap = 0
        for c in self.constraints.values():
            if not c.valid(0):
                gap = max(abs(c.value()), gap)
        return gap

    def setSolver(self, solver=None):
        self.solver = solver

    def assignStatus(self, status, sol_status=None):
        self.status = status
        return True

    def assignVarsVals(self, values):
        variables = self.variablesDict()
        for name in values:
            if name != "__dummy":
                variables[name].varValue = values[name]

    def solve(self, solver=None, **kwargs):
        if not solver:
            solver = self.solver
        if solver is not None and hasattr(solver, "actualSolve"):
            self.status = solver.actualSolve(self, **kwargs)
        else:
            self.status = _solve_with_backend(self)
        self.solver = solver
        return self.status


def _solve_with_backend(lp):
    if _backend is None:
        raise const.PulpError("no solver available in the stand-in")
    values = _backend(lp)
    if values is None:
        return const.LpStatusInfeasible
    for v in lp.variables():
        v.varValue = values[v.name]
    lp.sol_status = const.LpSolutionOptimal
    return const.LpStatusOptimal


class LpSolver:
    """A solver object handed out by getSolver"""

    name = "LpSolver"

    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs

    def available(self):
        return True

    def actualSolve(self, lp, **kwargs):
        return _solve_with_backend(lp)

    def solve(self, lp):
        return lp.solve(self)


class PULP_CBC_CMD(LpSolver):
    name = "PULP_CBC_CMD"


class CPLEX_CMD(LpSolver):
    name = "CPLEX_CMD"


class GUROBI_CMD(LpSolver):
    name = "GUROBI_CMD"


class GLPK_CMD(LpSolver):
    name = "GLPK_CMD"


COIN_CMD = PULP_CBC_CMD

_all_solvers = [PULP_CBC_CMD, CPLEX_CMD, GUROBI_CMD, GLPK_CMD]


def getSolver(solver, *args, **kwargs):
    mapping = {k.name: k for k in _all_solvers}
    try:
        return mapping[solver](*args, **kwargs)
    except KeyError:
        raise const.PulpError(
            "The solver {} does not exist in PuLP.\nPossible options are: \n{}".format(
                solver, mapping.keys()))


def listSolvers(onlyAvailable=False):
    return [s.name for s in _all_solvers]


def lpSum(vector):
    """Calculate the sum of a list of linear expressions"""
    return LpAffineExpression().addInPlace(vector)


def lpDot(v1, v2):
    """Calculate the dot product of two lists of linear expressions"""
    if not isinstance(v1, Iterable) and not isinstance(v2, Iterable):
        return v1 * v2
    if not isinstance(v1, Iterable):
        return lpDot([v1] * len(v2), v2)
    if not isinstance(v2, Iterable):
        return lpDot(v1, [v2] * len(v1))
    return lpSum([lpDot(e1, e2) for e1, e2 in zip(v1, v2)])


def value(x):
    """Returns the value of the variable/expression x, or x if it is a number"""
    if isinstance(x, (int, float)):
        return x
    return x.value()


def valueOrDefault(x):
    if isinstance(x, (int, float)):
        return x
    return x.valueOrDefault()


def isNumber(x):
    return isinstance(x, (int, float))
