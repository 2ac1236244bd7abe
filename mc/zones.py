"""Integer zones: sets of delay vectors described by bounds on differences.

A zone over the variables 0..n (variable 0 is the constant zero) is a closed
matrix m with x_a - x_b <= m[a][b].  With integer bounds the closed matrix is
the exact description of the integer vectors of the zone, its restriction to
some variables is the exact projection, and a zone is empty when a cycle is
negative.

A `Problem` is a zone H and a list of choices; a choice is a list of
alternatives, an alternative a list of bounds (a, b, c): x_a - x_b <= c.  A
vector belongs to the problem when it is in H and satisfies all bounds of one
alternative of every choice.
"""
import math
import time

INF = float("inf")


class Empty(Exception):
    """no vector is left"""


class Capped(Exception):
    """the search was given up"""


def close(m):
    n = len(m)
    for k in range(n):
        mk = m[k]
        for i in range(n):
            x = m[i][k]
            if x == INF:
                continue
            mi = m[i]
            for j in range(n):
                if x + mk[j] < mi[j]:
                    mi[j] = x + mk[j]
    for i in range(n):
        if m[i][i] < 0:
            raise Empty
    return m


def add(m, a, b, c):
    """tightens the closed zone m by x_a - x_b <= c, in place"""
    if c >= m[a][b]:
        return False
    if m[b][a] + c < 0:
        raise Empty
    n = len(m)
    rb = m[b]
    for i in range(n):
        x = m[i][a] + c
        if x < m[i][b]:
            mi = m[i]
            for j in range(n):
                if x + rb[j] < mi[j]:
                    mi[j] = x + rb[j]
    return True


def box(n, d_max):
    m = [[d_max if i != j else 0 for j in range(n + 1)] for i in range(n + 1)]
    for i in range(1, n + 1):
        m[i][0], m[0][i] = d_max, 0
    return m


def bound(terms, const, sense, eps=1e-6):
    """bounds (a, b, c) of sum(coef * x) + const (sense) 0 on integers; terms: [(variable, coef)];
    True / False for a constant condition"""
    if not terms:
        if sense > 0:
            return const >= -eps
        if sense < 0:
            return const <= eps
        return abs(const) <= eps
    scale = abs(terms[0][1])
    if len(terms) > 2 or any(abs(abs(a) - scale) > eps for _, a in terms) or \
            (len(terms) == 2 and terms[0][1] * terms[1][1] > 0):
        raise ValueError(f"not a difference of departures: {terms}")
    plus = [v for v, a in terms if a > 0]
    minus = [v for v, a in terms if a < 0]
    p, q, k = (plus or [0])[0], (minus or [0])[0], const / scale
    out = []
    if sense >= 0:          # p - q + k >= 0
        out.append((q, p, math.floor(k + eps)))
    if sense <= 0:          # p - q + k <= 0
        out.append((p, q, math.floor(-k + eps)))
    return out


class Problem:
    def __init__(self, n, d_max, hard, choices):
        self.n = n
        self.h = box(n, d_max)
        self.explored = 0
        self.empty = False
        self.choices = [[tuple(alt) for alt in c] for c in choices]
        try:
            for b in hard:
                add(self.h, *b)
            self.reduce()
        except Empty:
            self.empty = True

    def reduce(self):
        """removes choices that restrict nothing, takes over choices with one alternative left"""
        self.choices = propagate(self.h, self.choices, self)

    def forms(self):
        """{canonical form of a choice: choice}"""
        return {(v, frozenset(zones)): c for v, zones, c in (form(self.h, c) for c in self.choices)}


def relevant(h, alternatives):
    return tuple(sorted({v for alt in alternatives for a, b, _ in alt for v in (a, b) if v}))


def form(h, alternatives):
    """(variables, closed zones of the alternatives over them, alternatives), without the
    alternatives that another one includes"""
    alternatives = [tuple(x for x in alt if x[2] < h[x[0]][x[1]]) for alt in alternatives]
    v = relevant(h, alternatives)
    idx = {x: i for i, x in enumerate((0,) + v)}
    sub = [[h[a][b] for b in idx] for a in idx]
    found = {}
    for alt in alternatives:
        m = [r[:] for r in sub]
        try:
            for a, b, c in alt:
                add(m, idx[a], idx[b], c)
        except Empty:
            continue
        found.setdefault(tuple(map(tuple, m)), alt)
    zones = list(found)
    keep = [z for z in zones if not any(z is not y and all(p <= q for r, t in zip(z, y) for p, q in zip(r, t)) for y in zones)]
    return v, keep, [found[z] for z in keep]


def propagate(h, choices, counter=None):
    """(choices left); tightens h in place, raises Empty"""
    while True:
        left, changed = [], False
        for c in choices:
            v, zones, c = form(h, c)
            if counter is not None:
                counter.explored += len(zones)
            if not c:
                raise Empty
            if any(not alt for alt in c):
                continue
            if len(c) == 1:
                for b in c[0]:
                    changed |= add(h, *b)
            else:
                left.append(c)
        choices = left
        if not changed:
            return choices


def solve(h, choices, deadline):
    """a vector in h that satisfies all choices, or None"""
    h = [r[:] for r in h]
    try:
        choices = propagate(h, choices)
    except Empty:
        return None
    if not choices:
        return [-h[0][i] for i in range(1, len(h))]  # the smallest delays
    if time.time() > deadline:
        raise Capped
    first = min(choices, key=len)
    for alt in first:
        m = [r[:] for r in h]
        try:
            for b in alt:
                add(m, *b)
        except Empty:
            continue
        x = solve(m, [c for c in choices if c is not first], deadline)
        if x is not None:
            return x
    return None


def outside(a, choice, near, seconds=60):
    """a vector of problem a that satisfies no alternative of the choice, or None; near: variables whose
    choices are considered first.  Raises Capped with a vector of the near choices if the search is given up."""
    import itertools

    for broken in itertools.product(*choice):
        h = [r[:] for r in a.h]
        try:
            for p, q, c in broken:
                add(h, q, p, -c - 1)
        except Empty:
            continue
        some = [c for c in a.choices if near & {v for alt in c for x in alt for v in x[:2]}]
        x = solve(h, some, time.time() + seconds)
        if x is None:
            continue
        try:
            y = solve(h, a.choices, time.time() + seconds)
        except Capped:
            return x, False
        if y is not None:
            return y, True
    return None


def difference(a, b):
    """a vector of exactly one of the two problems: (vector, in a, complete search) or None"""
    if a.empty and b.empty:
        return None
    fa, fb = ({}, {}) if a.empty or b.empty else (a.forms(), b.forms())
    if not a.empty and not b.empty and a.h == b.h and set(fa) == set(fb):
        return None
    for x, y, which in ((a, b, True), (b, a, False)):
        if x.empty:
            continue
        fx, fy = (fa, fb) if which else (fb, fa)
        goals = []
        if y.empty:
            goals = [[]]
        else:
            for i in range(y.n + 1):
                for j in range(y.n + 1):
                    if y.h[i][j] < x.h[i][j]:
                        goals.append([((i, j, y.h[i][j]),)])
            goals += [c for k, c in fy.items() if k not in fx]
        for g in goals:
            near = {v for alt in g for t in alt for v in t[:2] if v}
            found = outside(x, g, near)
            if found:
                return found[0], which, found[1]
    return None
