"""C23: samples of the unconstrained model are read back as the right timetable."""
import itertools

import dimod

from mc import lpx, small_lp as sl
from mc.qubo import Encoding

PROPERTY = "C23"
BOUNDS = ((0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (-1, 1), (-3, 2), (0, 4), (0, 5), (0, 6), (3, 10), (0, 10), (0, 40))
BOUND = {
    "quick": "all bit patterns, auxiliary bits included, of problems with one or two variables over all (pairs of) 13 ranges "
             "with at most 10 bits; all sample sets of one to three samples from 6 patterns, in all orders, with all patterns "
             "of equal and different energies; small railway problems of every rule, all patterns of the "
             "first 12 bits of their variables, all others zero or all one; "
             "interpreters of two problems used in turn",
    "thorough": "as quick with at most 13 bits and 8 patterns",
}
ASSUMPTIONS = ["how often a sample occurred is not part of the reading",
               "pyqubo and dimod are replaced by stand-ins that are checked by the code's own tests of the conversion"]
PD = {k: i + 2 for i, k in enumerate(sl.KINDS)}
PD["objective"] = 1


def instances(tier):
    for b in BOUNDS:
        yield ("bits", (b,))
    for a, b in itertools.product(BOUNDS, repeat=2):
        yield ("bits", (a, b))
    for a, b in itertools.product(BOUNDS[:8], repeat=2):
        yield ("sets", (a, b))
        yield ("turns", a, b)
    for name in sl.railway():
        for d_max in (1, 2, 5, 40):
            yield ("railway", name, d_max)


def convert(ctx, prob):
    with ctx.code("converting to the unconstrained quadratic model"):
        bqm, _, interpreter = lpx.rs().convert_to_bqm(prob, PD)
    return list(bqm.variables), interpreter


def rows(ctx, interpreter, samples, energies):
    ss = dimod.SampleSet.from_samples([dict(s) for s in samples], "BINARY", list(energies))
    with ctx.code("reading a sample set"):
        out = interpreter(ss)
        return [(dict(d.sample), float(d.energy)) for d in out.data()]


def norm(sample):
    return tuple(sorted((str(k), float(v)) for k, v in sample.items()))


def judge(ctx, prob, interpreter, enc, samples, energies):
    got = sorted({(norm(s), e) for s, e in rows(ctx, interpreter, samples, energies)})
    want = sorted({(norm(enc.read(s)), float(e)) for s, e in zip(samples, energies)})
    ctx.trace()
    ctx.step(len(samples))
    if got != want:
        ctx.fail(f"{len(samples)} samples {samples} with energies {energies} are read as {got}, expected {want}")
    for s, _ in got:
        d = dict(s)
        for v in prob.variables():
            x = d[v.name]
            if not v.lowBound <= x <= v.upBound or x != int(x):
                ctx.fail(f"{v.name} is read as {x}, its range is {v.lowBound}..{v.upBound}")


def problem(bounds):
    n = len(bounds)
    top = sum(u for _, u in bounds)
    cons = [("minimal_span", (1,) * n, sl.LE, -top + 1)]
    if n == 1:
        cons.append(("switch", (1,), sl.GE, -bounds[0][0]))
    return sl.build((bounds, cons, ((1,) + (2,) * (n - 1), 0)))


def patterns(bits):
    for x in itertools.product((0, 1), repeat=len(bits)):
        yield dict(zip(bits, x))


def examine(inst, ctx):
    limit = 13 if ctx.tier == "thorough" else 10
    if inst[0] == "bits":
        prob = problem(inst[1])
        bits, interpreter = convert(ctx, prob)
        if len(bits) > limit:
            ctx.count("larger_than_the_bound")
            return
        enc = Encoding(ctx, prob)
        for s in patterns(bits):
            ctx.state()
            judge(ctx, prob, interpreter, enc, [s], [1.5])
            ctx.outcome(norm(enc.read(s)))
        everything = list(patterns(bits))
        judge(ctx, prob, interpreter, enc, everything, [float(i * 7 % 11) for i in range(len(everything))])
    elif inst[0] == "sets":
        prob = problem(inst[1])
        bits, interpreter = convert(ctx, prob)
        enc = Encoding(ctx, prob)
        n = 8 if ctx.tier == "thorough" else 6
        every = list(patterns(bits)) if len(bits) <= 10 else list(itertools.islice(patterns(bits), 1024))
        picked = [every[(i * (len(every) - 1)) // (n - 1)] for i in range(n)]
        for k in (1, 2, 3):
            for chosen in itertools.product(picked, repeat=k):
                for energies in itertools.product((0.0, -1.0, 2.5), repeat=k):
                    ctx.state()
                    judge(ctx, prob, interpreter, enc, list(chosen), list(energies))
    elif inst[0] == "turns":
        first, second = problem((inst[1],)), problem((inst[1], inst[2]))
        (b1, i1), (b2, i2) = convert(ctx, first), convert(ctx, second)
        e1, e2 = Encoding(ctx, first), Encoding(ctx, second)
        p1, p2 = list(patterns(b1)), list(patterns(b2))[::7][:64]
        for s, t in itertools.product(p1[:32], p2):
            ctx.state()
            judge(ctx, first, i1, e1, [s], [0.0])
            judge(ctx, second, i2, e2, [t], [3.0])
    else:
        _, name, d_max = inst
        ts, tt = sl.railway()[name]
        prob = lpx.build(ctx, ts, tt, d_max)
        bits, interpreter = convert(ctx, prob)
        enc = Encoding(ctx, prob)
        used = sorted({b for terms, _ in enc.parts.values() for b, _ in terms})
        rest = [b for b in bits if b not in used]
        if len(used) > limit + 2:
            used = used[:limit + 2]
            ctx.count("partly")
        for fill in (0, 1):
            for s in patterns(used):
                ctx.state()
                s = {**{b: fill for b in bits}, **s, **{b: fill for b in rest}}
                judge(ctx, prob, interpreter, enc, [s], [0.0])
    ctx.sample(repr(inst))
