"""Reference model of conflict-free timetables.

The conflict rules are read off the train sets as conditional differences of
departure times, `t(a) >= t(b) + c if order bit = v`.  An order bit says which of
two trains goes first at one place; bits at places where the order cannot
change are tied.  A delay vector is accepted when every tied class of order
bits has a value under which all of its conditions hold.
"""
import itertools

EPS = 1e-6


class Rules:
    def __init__(self, sets, timetable, d_max, tie_ends=False):
        """tie_ends: opposite trains that meet common switches at both ends of a
        section have one order there even if they run on different tracks"""
        self.sets, self.tt, self.d_max = sets, timetable, d_max
        self.tie_ends = tie_ends
        self.paths = sets["Paths"]
        self.tau = timetable["tau"]
        self.hands = {}      # (train, station) -> train that takes its stock over
        self.takes = {}      # (train, station) -> train whose stock it takes over
        self.stock = set()
        for s, pairs in sets["Jround"].items():
            for a, b in pairs:
                self.hands[(a, s)] = b
                self.takes[(b, s)] = a
                self.stock.add(frozenset((a, b)))
        self.keys = [(j, s) for j in sets["J"] for s in self.paths[j] if self.counted(j, s)]
        self.index = {k: i for i, k in enumerate(self.keys)}
        self._e = {}
        self.hard = []       # (late, early, gap): late >= early + gap
        self.soft = []       # (class root, value, late, early, gap, text)
        self.parent = {}     # union-find with parity
        self.build()
        self.compile()

    # --- times
    def counted(self, j, s):
        return self.sets.get("skip_station", {}).get(j) != s and (j, s) not in self.hands

    def prev(self, j, s):
        i = self.paths[j].index(s)
        return self.paths[j][i - 1] if i else None

    def earliest(self, j, s):
        if (j, s) not in self._e:
            key = f"{j}_{s}"
            if key in self.tt["initial_conditions"]:
                t = self.tt["initial_conditions"][key]
            else:
                p = self.prev(j, s)
                t = self.earliest(j, p) + self.run(j, p, s) + self.tau["stop"][key]
            planned = self.tt.get("schedule", {}).get(key)
            self._e[(j, s)] = t if planned is None or planned < t else planned
        return self._e[(j, s)]

    def run(self, j, s, s2):
        return self.tau["pass"][f"{j}_{s}_{s2}"]

    def leave(self, j, s, plus=0):
        """time of a departure: (delay component or None, constant)"""
        return (self.index[(j, s)], self.earliest(j, s) + plus)

    def arrive(self, j, s):
        """time at which the stock of train j is at station s"""
        if (j, s) in self.takes:
            other = self.takes[(j, s)]
            p = self.prev(other, s)
            return self.leave(other, p, self.run(other, p, s))
        p = self.prev(j, s)
        if p is None:
            return (None, self.earliest(j, s))
        return self.leave(j, p, self.run(j, p, s))

    # --- order bits
    def find(self, key):
        flip = 0
        self.parent.setdefault(key, (key, 0))
        while self.parent[key][0] != key:
            key, f = self.parent[key]
            flip ^= f
        return key, flip

    def tie(self, a, b):
        """a, b: (bit key, value); the bits are equal in the sense a=va iff b=vb"""
        (ra, fa), (rb, fb) = self.find(a[0]), self.find(b[0])
        f = fa ^ fb ^ a[1] ^ b[1]
        if ra != rb:
            self.parent[ra] = (rb, f)
        elif f:
            self.hard.append(((None, 0.0), (None, 1.0), 0.0, "the orders contradict each other"))

    @staticmethod
    def first(kind, j, jp, *place):
        """(bit key, value) of 'j goes first'"""
        pair = tuple(sorted((j, jp), key=str))
        return ((kind, pair) + place, 0 if pair[0] == j else 1)

    @staticmethod
    def first_on_line(j, s, jp, sp):
        """j from s and jp from sp, in opposite directions"""
        pair = tuple(sorted(((j, s), (jp, sp)), key=str))
        return (("line", pair), 0 if pair[0] == (j, s) else 1)

    def rule(self, bit, late, early, gap, text):
        self.soft.append((bit, late, early, gap, text))

    def same_line(self, j, jp, s):
        """they reach s from the same station over the same line track"""
        p = self.prev(j, s)
        if p is None or p != self.prev(jp, s):
            return False
        return any(j in g and jp in g for g in self.sets["Jd"].get(p, {}).get(s, []))

    # --- the rules
    def build(self):
        S = self.sets
        for j in S["J"]:
            for p, s in zip(self.paths[j], self.paths[j][1:]):
                if self.counted(j, s):
                    self.hard.append((self.leave(j, s), self.leave(j, p),
                                      self.run(j, p, s) + self.tau["stop"][f"{j}_{s}"], f"stay of {j} at {s}"))
        for s, pairs in S["Jround"].items():
            for j, jp in pairs:
                self.hard.append((self.leave(jp, s), self.arrive(jp, s), self.tau["prep"][f"{jp}_{s}"],
                                  f"stock of {j} for {jp} at {s}"))
        for s in S["Jd"]:
            for s2 in S["Jd"][s]:
                for group in S["Jd"][s][s2]:
                    for j, jp in itertools.permutations(group, 2):
                        self.rule(self.first("dep", j, jp, s), self.leave(jp, s), self.leave(j, s),
                                  self.tau["headway"][f"{j}_{jp}_{s}_{s2}"], f"headway of {jp} after {j} from {s}")
        for (s, sp), pairs in S["Josingle"].items():
            for j, jp in pairs:
                if frozenset((j, jp)) in self.stock:
                    continue
                self.rule(self.first_on_line(j, s, jp, sp), self.leave(jp, sp), self.leave(j, s),
                          self.run(j, s, sp), f"{jp} from {sp} waits for {j} from {s}")
                self.rule(self.first_on_line(jp, sp, j, s), self.leave(j, s), self.leave(jp, sp),
                          self.run(jp, sp, s), f"{j} from {s} waits for {jp} from {sp}")
        entering = {}
        for s, pairs in S["Jswitch"].items():
            for pair in pairs:
                if set(pair.values()) == {"in"}:
                    entering.setdefault(s, set()).add(frozenset(pair))
        for s, groups in S["Jtrack"].items():
            for group in groups:
                for j, jp in itertools.combinations(group, 2):
                    if frozenset((j, jp)) in self.stock:
                        continue
                    a = self.first("dep", j, jp, s)
                    for x, y in ((j, jp), (jp, j)):
                        if (x, s) in self.hands:
                            self.tie(self.first("dep", x, y, s), self.first("dep", self.hands[(x, s)], y, s))
                        elif self.counted(x, s):
                            gap = self.tau["res"] if s in S.get("add_swithes_at_s", ()) else 0
                            self.rule(self.first("dep", x, y, s), self.arrive(y, s), self.leave(x, s), gap,
                                      f"track of {s}: {y} after {x}")
                    if self.same_line(j, jp, s):
                        self.tie(a, self.first("dep", j, jp, self.prev(j, s)))
                    elif frozenset((j, jp)) in entering.get(s, ()):
                        self.tie(a, self.first("in", j, jp, s))
        for s, pairs in S["Jswitch"].items():
            for pair in pairs:
                (j, a), (jp, b) = pair.items()
                if frozenset((j, jp)) in self.stock:
                    continue
                if a == b == "out":
                    bit = self.first("dep", j, jp, s)
                elif a == b == "in":
                    bit = self.first("dep", j, jp, self.prev(j, s)) if self.same_line(j, jp, s) \
                        else self.first("in", j, jp, s)
                else:
                    place = {x: s if r == "out" else self.prev(x, s) for x, r in pair.items()}
                    bit = self.first_on_line(j, place[j], jp, place[jp])
                    if not self.tie_ends and not self.head_on(j, place[j], jp, place[jp]):
                        bit = (("switch", s) + bit[0], bit[1])
                tj, tp = (self.leave(x, s) if r == "out" else self.leave(x, self.prev(x, s), self.run(x, self.prev(x, s), s))
                          for x, r in ((j, a), (jp, b)))
                gap = self.tau["res"]
                self.rule(bit, tp, tj, gap, f"switch of {s}: {jp} after {j}")
                self.rule((bit[0], 1 - bit[1]), tj, tp, gap, f"switch of {s}: {j} after {jp}")

    def head_on(self, j, s, jp, sp):
        for (a, b), pairs in self.sets["Josingle"].items():
            for x, y in pairs:
                if {(x, a), (y, b)} == {(j, s), (jp, sp)}:
                    return True
        return False

    def both_ends(self):
        """opposite trains on different tracks with common switches at both ends"""
        seen, out = {}, set()
        for s, pairs in self.sets["Jswitch"].items():
            for pair in pairs:
                (j, a), (jp, b) = pair.items()
                if a == b or frozenset((j, jp)) in self.stock:
                    continue
                place = {x: s if r == "out" else self.prev(x, s) for x, r in pair.items()}
                key = frozenset(place.items())
                if key in seen and seen[key] != s and not self.head_on(j, place[j], jp, place[jp]):
                    out.add(key)
                seen[key] = s
        return out

    # --- deciding
    def compile(self):
        classes = {}
        for bit, late, early, gap, text in self.soft:
            root, flip = self.find(bit[0])
            classes.setdefault(root, ([], []))[bit[1] ^ flip].append((late, early, gap, text))
        self.classes = []
        for zero, one in classes.values():
            self.classes.append(tuple([self._flat(c) for c in side] for side in (zero, one)))
        self.firm = [self._flat(c) for c in self.hard]

    @staticmethod
    def _flat(c):
        (i, a), (k, b), gap, text = c
        return (-1 if i is None else i, -1 if k is None else k, b + gap - a, text)

    @staticmethod
    def _holds(c, d):
        i, k, need, _ = c
        x = -need
        if i >= 0:
            x += d[i]
        if k >= 0:
            x -= d[k]
        return x >= -EPS

    def accepts(self, d):
        for c in self.firm:
            if not self._holds(c, d):
                return False
        for zero, one in self.classes:
            for side in (zero, one):
                for c in side:
                    if not self._holds(c, d):
                        break
                else:
                    break
            else:
                return False
        return True

    def why(self, d):
        out = [c[3] for c in self.firm if not self._holds(c, d)]
        for zero, one in self.classes:
            bad = [[c[3] for c in side if not self._holds(c, d)] for side in (zero, one)]
            if all(bad):
                out.append(" and also ".join(b[0] for b in bad))
        return out
