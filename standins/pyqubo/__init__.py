"""Stand-in for the parts of pyqubo 1.3 the repository uses, see DESIGN.md.

An expression is a polynomial over binary variables whose coefficients are
polynomials over placeholders: {frozenset(variables): {sorted tuple of
placeholder labels: number}}.
"""
import math

import dimod

__all__ = ["Binary", "Spin", "LogEncInteger", "Placeholder", "Constraint", "SubH", "Num",
           "Array", "Model", "Express", "UnaryEncInteger", "OrderEncInteger", "OneHotEncInteger"]

_ONE = frozenset()


class Express:
    """polynomial expression with the sub-expressions it was built from"""

    def __init__(self, poly=None, subs=None):
        self.poly = {} if poly is None else poly
        self.subs = {} if subs is None else subs

    @staticmethod
    def _lift(x):
        if isinstance(x, Express):
            return x
        if isinstance(x, (int, float)) or hasattr(x, "__float__"):
            return Express({_ONE: {(): x}} if x != 0 else {})
        return None

    def __add__(self, other):
        o = Express._lift(other)
        if o is None:
            return NotImplemented
        return _Sum(self, o)

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, other):
        o = Express._lift(other)
        if o is None:
            return NotImplemented
        return self + (o * -1)

    def __rsub__(self, other):
        return (self * -1) + other

    def __mul__(self, other):
        o = Express._lift(other)
        if o is None:
            return NotImplemented
        poly = {}
        for m1, c1 in self.poly.items():
            for m2, c2 in o.poly.items():
                tgt = poly.setdefault(m1 | m2, {})
                for p1, x1 in c1.items():
                    for p2, x2 in c2.items():
                        key = tuple(sorted(p1 + p2))
                        tgt[key] = tgt.get(key, 0) + x1 * x2
        return Express(poly, {**self.subs, **o.subs})

    __rmul__ = __mul__

    def __truediv__(self, other):
        return self * (1 / other)

    def __pow__(self, n):
        if not isinstance(n, int) or n <= 0:
            raise ValueError("order of power must be positive integer")
        out = self
        for _ in range(n - 1):
            out = out * self
        return out

    def compile(self, strength=5):
        return Model(self)


class _Sum(Express):
    """sum of two expressions, expanded when needed: long sums grow on the left"""

    def __init__(self, left, right):
        self._parts = (left, right)
        self._done = None

    def _expand(self):
        if self._done is None:
            chain, e = [], self
            while isinstance(e, _Sum) and e._done is None:
                chain.append(e._parts[1])
                e = e._parts[0]
            chain.append(e)
            poly, subs = {}, {}
            for e in reversed(chain):
                for m, c in e.poly.items():
                    tgt = poly.setdefault(m, {})
                    for ph, x in c.items():
                        tgt[ph] = tgt.get(ph, 0) + x
                subs.update(e.subs)
            self._done = (poly, subs)
        return self._done

    @property
    def poly(self):
        return self._expand()[0]

    @property
    def subs(self):
        return self._expand()[1]


class Binary(Express):
    """binary variable"""

    def __init__(self, label):
        Express.__init__(self, {frozenset([label]): {(): 1}})
        self.label = label


class Spin(Express):
    def __init__(self, label):
        Express.__init__(self, {frozenset([label]): {(): 2}, _ONE: {(): -1}})
        self.label = label


class Placeholder(Express):
    """coefficient fixed when the model is fed"""

    def __init__(self, label):
        Express.__init__(self, {_ONE: {(label,): 1}})
        self.label = label


class Num(Express):
    def __init__(self, value):
        Express.__init__(self, {_ONE: {(): value}})


class SubH(Express):
    def __init__(self, hamiltonian, label):
        Express.__init__(self, hamiltonian.poly, {**hamiltonian.subs, label: hamiltonian})
        self.label = label


class Constraint(SubH):
    def __init__(self, hamiltonian, label, condition=None):
        SubH.__init__(self, hamiltonian, label)


class _Integer(Express):
    def __init__(self, label, value_range, coeffs, start):
        self.label = label
        self.value_range = value_range
        poly = {_ONE: {(): start}} if start else {}
        for i, c in enumerate(coeffs):
            poly[frozenset(["%s[%d]" % (label, i)])] = {(): c}
        me = Express(poly)
        Express.__init__(self, poly, {label: me})


def _range(value_range):
    lower, upper = value_range
    assert upper > lower, "upper value should be larger than lower value"
    assert int(lower) == lower and int(upper) == upper, "bounds must be integers"
    return int(lower), int(upper)


class LogEncInteger(_Integer):
    """lower + sum 2^i b_i + rest * b_last"""

    def __init__(self, label, value_range):
        lower, upper = _range(value_range)
        span = upper - lower
        d = int(math.log2(span)) + 1
        coeffs = [2 ** i for i in range(d - 1)] + [span - (2 ** (d - 1) - 1)]
        _Integer.__init__(self, label, (lower, upper), coeffs, lower)


class UnaryEncInteger(_Integer):
    def __init__(self, label, value_range):
        lower, upper = _range(value_range)
        _Integer.__init__(self, label, (lower, upper), [1] * (upper - lower), lower)


OrderEncInteger = UnaryEncInteger
OneHotEncInteger = UnaryEncInteger


class Array(list):
    @classmethod
    def create(cls, label, shape, vartype):
        return cls(Binary("%s[%d]" % (label, i)) for i in range(shape))


class DecodedSample:
    def __init__(self, sample, energy, subh, constraints):
        self.sample = sample
        self.energy = energy
        self.subh = subh
        self._constraints = constraints

    def constraints(self, only_broken=False):
        return self._constraints


def _feed(coeff, feed_dict):
    total = 0
    for ph, x in coeff.items():
        for p in ph:
            if p not in feed_dict:
                raise ValueError("the value of placeholder %r is not given" % p)
            x = x * feed_dict[p]
        total += x
    return total


def _value(poly, sample, feed_dict):
    total = 0
    for m, c in poly.items():
        if all(sample[v] for v in m):
            total += _feed(c, feed_dict)
    return total


class Model:
    """compiled expression"""

    def __init__(self, express):
        self._express = express
        names = []
        for m in express.poly:
            for v in sorted(m):
                if v not in names:
                    names.append(v)
        self.variables = names

    def _degree_check(self):
        for m, c in self._express.poly.items():
            if len(m) > 2 and any(x != 0 for x in c.values()):
                raise ValueError("the stand-in only compiles quadratic models")

    def to_bqm(self, index_label=False, feed_dict=None):
        self._degree_check()
        feed_dict = {} if feed_dict is None else feed_dict
        bqm = dimod.BinaryQuadraticModel("BINARY")
        for v in self.variables:
            bqm.add_linear(v, 0.0)
        for m, c in self._express.poly.items():
            x = _feed(c, feed_dict)
            key = sorted(m)
            if not key:
                bqm.offset += x
            elif len(key) == 1:
                bqm.add_linear(key[0], x)
            else:
                bqm.add_quadratic(key[0], key[1], x)
        return bqm

    def to_qubo(self, index_label=False, feed_dict=None):
        bqm = self.to_bqm(feed_dict=feed_dict)
        Q = {(v, v): b for v, b in bqm.linear.items() if b != 0}
        Q.update((k, b) for k, b in bqm.quadratic.items())
        return Q, bqm.offset

    def to_ising(self, index_label=False, feed_dict=None):
        return self.to_bqm(feed_dict=feed_dict).to_ising()

    def energy(self, sample, vartype, feed_dict=None):
        return _value(self._express.poly, sample, feed_dict or {})

    def decode_sample(self, sample, vartype, feed_dict=None):
        feed_dict = {} if feed_dict is None else feed_dict
        vt = vartype if isinstance(vartype, str) else vartype.name
        if vt == "SPIN":
            sample = {v: (x + 1) // 2 for v, x in sample.items()}
        subh = {label: _value(e.poly, sample, feed_dict) for label, e in self._express.subs.items()}
        return DecodedSample(dict(sample), self.energy(sample, "BINARY", feed_dict), subh, {})

    def decode_sampleset(self, sampleset, feed_dict=None):
        return [self.decode_sample(s, "BINARY", feed_dict) for s in sampleset.samples()]
