"""Quadratic models as plain dictionaries."""
import enum
import itertools
import math


class Vartype(enum.Enum):
    SPIN = frozenset({-1, 1})
    BINARY = frozenset({0, 1})
    INTEGER = "INTEGER"
    REAL = "REAL"

    def __eq__(self, other):
        if isinstance(other, str):
            return self.name == other
        return self is other

    def __hash__(self):
        return hash(self.name)


BINARY = Vartype.BINARY
SPIN = Vartype.SPIN
INTEGER = Vartype.INTEGER


def as_vartype(v):
    if isinstance(v, Vartype):
        return v
    if isinstance(v, str):
        return Vartype[v]
    return Vartype(frozenset(v))


class Variables(list):
    """ordered variables; a list with ``index``"""


class _Quadratic(dict):
    """adjacency keyed by unordered pairs"""

    @staticmethod
    def _norm(key):
        u, v = key
        return u, v

    def __contains__(self, key):
        u, v = key
        return dict.__contains__(self, (u, v)) or dict.__contains__(self, (v, u))

    def __getitem__(self, key):
        u, v = key
        if dict.__contains__(self, (u, v)):
            return dict.__getitem__(self, (u, v))
        return dict.__getitem__(self, (v, u))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def bump(self, u, v, bias):
        if dict.__contains__(self, (u, v)):
            dict.__setitem__(self, (u, v), dict.__getitem__(self, (u, v)) + bias)
        elif dict.__contains__(self, (v, u)):
            dict.__setitem__(self, (v, u), dict.__getitem__(self, (v, u)) + bias)
        else:
            dict.__setitem__(self, (u, v), bias)

    def __eq__(self, other):
        if len(self) != len(other):
            return False
        return all(k in other and other[k] == b for k, b in self.items())

    __hash__ = None


def _is_number(x):
    return isinstance(x, (int, float)) or (
        hasattr(x, "__float__") and not isinstance(x, QuadraticModel))


class QuadraticModel:
    """offset + sum linear + sum quadratic, each variable typed and bounded"""

    def __init__(self, *args, **kwargs):
        self.linear = {}
        self.quadratic = _Quadratic()
        self.offset = 0
        self._vartype = {}
        self._bounds = {}

    # -- construction ----------------------------------------------------
    def add_variable(self, vartype, v, lower_bound=None, upper_bound=None):
        vartype = as_vartype(vartype)
        if v in self.linear:
            if self._vartype[v] != vartype:
                raise TypeError("variable %r has already a different vartype" % (v,))
            return v
        self.linear[v] = 0
        self._vartype[v] = vartype
        if vartype is Vartype.INTEGER:
            lb = 0 if lower_bound is None else lower_bound
            ub = 2 ** 53 if upper_bound is None else upper_bound
        elif vartype is Vartype.BINARY:
            lb, ub = 0, 1
        else:
            lb, ub = -1, 1
        self._bounds[v] = (lb, ub)
        return v

    def _adopt(self, other):
        for v in other.linear:
            self.add_variable(other._vartype[v], v, *other._bounds[v])
            if self._bounds[v] != other._bounds[v]:
                raise ValueError("variable %r has inconsistent bounds" % (v,))

    def copy(self):
        return self._as_qm()

    def _as_qm(self):
        new = QuadraticModel()
        new.linear = dict(self.linear)
        new.quadratic = _Quadratic(self.quadratic.items())
        new.offset = self.offset
        new._vartype = dict(self._vartype)
        new._bounds = dict(self._bounds)
        return new

    # -- inspection ------------------------------------------------------
    @property
    def variables(self):
        return Variables(self.linear)

    @property
    def num_variables(self):
        return len(self.linear)

    @property
    def num_interactions(self):
        return len(self.quadratic)

    @property
    def shape(self):
        return self.num_variables, self.num_interactions

    def __len__(self):
        return len(self.linear)

    def __bool__(self):
        return True

    def vartype(self, v):
        return self._vartype[v]

    def lower_bound(self, v):
        return self._bounds[v][0]

    def upper_bound(self, v):
        return self._bounds[v][1]

    def get_linear(self, v):
        return self.linear[v]

    def get_quadratic(self, u, v, default=None):
        return self.quadratic.get((u, v), default)

    def iter_linear(self):
        return iter(self.linear.items())

    def iter_quadratic(self):
        for (u, v), b in self.quadratic.items():
            yield u, v, b

    def is_linear(self):
        return not self.quadratic

    def energy(self, sample):
        e = self.offset
        for v, b in self.linear.items():
            if b:
                e += b * sample[v]
        for (u, v), b in self.quadratic.items():
            e += b * sample[u] * sample[v]
        return e

    # -- arithmetic ------------------------------------------------------
    def _iadd(self, other, factor=1):
        if isinstance(other, QuadraticModel):
            self._adopt(other)
            for v, b in other.linear.items():
                self.linear[v] += factor * b
            for (u, v), b in other.quadratic.items():
                self.quadratic.bump(u, v, factor * b)
            self.offset += factor * other.offset
            return self
        if _is_number(other):
            self.offset += factor * other
            return self
        return NotImplemented

    def __add__(self, other):
        return self._as_qm()._iadd(other)

    __radd__ = __add__

    def __iadd__(self, other):
        return self._as_qm()._iadd(other)

    def __sub__(self, other):
        return self._as_qm()._iadd(other, -1)

    def __isub__(self, other):
        return self._as_qm()._iadd(other, -1)

    def __rsub__(self, other):
        return (-1 * self)._iadd(other)

    def __neg__(self):
        return -1 * self

    def __pos__(self):
        return self

    def __mul__(self, other):
        new = QuadraticModel()
        if isinstance(other, QuadraticModel):
            if self.quadratic or other.quadratic:
                raise TypeError("cannot multiply models of degree above one")
            new._adopt(self)
            new._adopt(other)
            for u, a in self.linear.items():
                for v, b in other.linear.items():
                    if u == v:
                        if new._vartype[u] == BINARY:
                            new.linear[u] += a * b
                        elif new._vartype[u] == SPIN:
                            new.offset += a * b
                        else:
                            new.quadratic.bump(u, v, a * b)
                    else:
                        new.quadratic.bump(u, v, a * b)
                new.linear[u] += a * other.offset
            for v, b in other.linear.items():
                new.linear[v] += b * self.offset
            new.offset += self.offset * other.offset
            return new
        if _is_number(other):
            new._adopt(self)
            for v, b in self.linear.items():
                new.linear[v] = b * other
            for (u, v), b in self.quadratic.items():
                new.quadratic.bump(u, v, b * other)
            new.offset = self.offset * other
            return new
        return NotImplemented

    def __rmul__(self, other):
        return self.__mul__(other)

    def __truediv__(self, other):
        return self * (1 / other)

    def __pow__(self, other):
        if other == 2:
            return self * self
        if other == 1:
            return self.copy()
        if other == 0:
            return 1
        raise ValueError("unsupported power")

    # -- comparison ------------------------------------------------------
    def __eq__(self, other):
        if _is_number(other):
            return Comparison(self, "==", other)
        if isinstance(other, QuadraticModel):
            return self.is_equal(other)
        return NotImplemented

    def __ne__(self, other):
        return not self.is_equal(other)

    def is_equal(self, other):
        return (self.offset == other.offset and self.linear == other.linear
                and self.quadratic == other.quadratic and self._vartype == other._vartype)

    def __le__(self, other):
        return _compare(self, "<=", other)

    def __ge__(self, other):
        return _compare(self, ">=", other)

    __hash__ = None

    def __repr__(self):
        return "QM(%r, %r, %r)" % (self.linear, dict(self.quadratic), self.offset)


QM = QuadraticModel


def _compare(lhs, sense, rhs):
    if isinstance(rhs, QuadraticModel):
        return Comparison(lhs - rhs, sense, 0)
    return Comparison(lhs, sense, rhs)


class Comparison:
    """lhs sense rhs with a model on the left and a number on the right"""

    def __init__(self, lhs, sense, rhs):
        self.lhs = lhs
        self.sense = Sense(sense)
        self.rhs = rhs

    def __bool__(self):
        return False

    def to_polystring(self):
        return "%r %s %r" % (self.lhs, self.sense.value, self.rhs)


class Sense(enum.Enum):
    Le = "<="
    Ge = ">="
    Eq = "=="

    def __eq__(self, other):
        if isinstance(other, str):
            return self.value == other
        return self is other

    def __hash__(self):
        return hash(self.value)


class BinaryQuadraticModel(QuadraticModel):
    """BQM over BINARY or SPIN variables"""

    def __init__(self, *args, **kwargs):
        QuadraticModel.__init__(self)
        vartype = kwargs.pop("vartype", None)
        args = list(args)
        if vartype is None:
            vartype = args.pop() if args else BINARY
        self._type = as_vartype(vartype)
        if args and isinstance(args[0], dict):
            for v, b in args[0].items():
                self.add_linear(v, b)
        if len(args) > 1:
            for (u, v), b in args[1].items():
                self.add_quadratic(u, v, b)
        if len(args) > 2:
            self.offset += args[2]

    @property
    def vartype(self):
        return self._type

    @classmethod
    def empty(cls, vartype):
        return cls(vartype)

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        bqm = cls(BINARY)
        for (u, v), b in Q.items():
            if u == v:
                bqm.add_linear(u, b)
            else:
                bqm.add_quadratic(u, v, b)
        bqm.offset += offset
        return bqm

    def copy(self):
        new = BinaryQuadraticModel(self._type)
        new.linear = dict(self.linear)
        new.quadratic = _Quadratic(self.quadratic.items())
        new.offset = self.offset
        new._vartype = dict(self._vartype)
        new._bounds = dict(self._bounds)
        return new

    def add_linear(self, v, bias):
        self.add_variable(self._type, v)
        self.linear[v] += bias

    add_variable_bias = add_linear

    def set_linear(self, v, bias):
        self.add_variable(self._type, v)
        self.linear[v] = bias

    def add_quadratic(self, u, v, bias):
        if u == v:
            if self._type == BINARY:
                self.add_linear(u, bias)
            else:
                self.offset += bias
            return
        self.add_variable(self._type, u)
        self.add_variable(self._type, v)
        self.quadratic.bump(u, v, bias)

    def add_linear_equality_constraint(self, terms, lagrange_multiplier, constant):
        terms = list(terms)
        for i, (u, a) in enumerate(terms):
            self.add_linear(u, lagrange_multiplier * a * (2 * constant + a))
            for v, b in terms[i + 1:]:
                self.add_quadratic(u, v, 2 * lagrange_multiplier * a * b)
        self.offset += lagrange_multiplier * constant * constant

    def to_ising(self):
        linear = {v: 0.0 for v in self.linear}
        quad = {}
        offset = self.offset
        if self._type == SPIN:
            return dict(self.linear), dict(self.quadratic), offset
        for v, b in self.linear.items():
            linear[v] += b / 2
            offset += b / 2
        for (u, v), b in self.quadratic.items():
            quad[(u, v)] = quad.get((u, v), 0) + b / 4
            linear[u] += b / 4
            linear[v] += b / 4
            offset += b / 4
        return linear, quad, offset

    def to_qubo(self):
        Q = {(v, v): b for v, b in self.linear.items()}
        Q.update(self.quadratic.items())
        return Q, self.offset

    def change_vartype(self, vartype, inplace=True):
        if as_vartype(vartype) == self._type:
            return self if inplace else self.copy()
        raise NotImplementedError


BQM = BinaryQuadraticModel


def as_bqm(*args, **kwargs):
    if len(args) == 1 and isinstance(args[0], BinaryQuadraticModel):
        return args[0]
    return BinaryQuadraticModel(*args, **kwargs)


_counter = itertools.count()


def Binary(label=None, bias=1):
    bqm = BinaryQuadraticModel(BINARY)
    bqm.add_linear("b%d" % next(_counter) if label is None else label, bias)
    return bqm


def Spin(label=None, bias=1):
    bqm = BinaryQuadraticModel(SPIN)
    bqm.add_linear("s%d" % next(_counter) if label is None else label, bias)
    return bqm


def Integer(label=None, bias=1, dtype=None, *, lower_bound=None, upper_bound=None):
    qm = QuadraticModel()
    label = "i%d" % next(_counter) if label is None else label
    if lower_bound is not None and upper_bound is not None and lower_bound > upper_bound:
        raise ValueError("lower_bound must be less than or equal to upper_bound")
    qm.add_variable(INTEGER, label, lower_bound, upper_bound)
    qm.linear[label] += bias
    return qm


def Binaries(labels):
    return (Binary(v) for v in labels)


def Integers(labels):
    return (Integer(v) for v in labels)


def quicksum(iterable):
    total = 0
    for e in iterable:
        total = total + e
    return total


def binary_encoding(v, upper_bound):
    if upper_bound <= 1:
        raise ValueError("upper_bound must be greater than or equal to 1")
    upper_bound = math.floor(upper_bound)
    bqm = BinaryQuadraticModel(BINARY)
    max_pow = math.floor(math.log2(upper_bound))
    for exp in range(max_pow):
        bqm.set_linear((v, 1 << exp), 1 << exp)
    val = upper_bound - ((1 << max_pow) - 1)
    bqm.set_linear((v, val, "msb"), val)
    return bqm
