"""C27: train diagrams place every train on the line at its published times."""
import contextlib
import datetime
import io
import itertools
import os
import re
import runpy
import sys

from mc import recorded

PROPERTY = "C27"
# kilometres of the stations: line -> [(name, call sign, km)]
LINES = {
    "131": [("Chorzów Batory", "CB", 6.16), ("Chorzów Miasto", "CM", 8.98)],
    "137": [("Katowice", "KO", 0.39), ("Katowice Towarowa KTC", "KTC", 2.91), ("Chorzów Batory", "CB", 6.16),
            ("Świętochłowice", "", 8.41), ("Ruda Chebzie", "RC", 11.74), ("Ruda Śląska", "RŚl", 14.6),
            ("Zabrze", "Zz", 18.92), ("Gliwice", "Gl", 27.10)],
    "138": [("Katowice Zawodzie", "Kz", 30.24), ("Katowice", "KO", 32.96)],
    "139": [("Katowice", "KO", 0.0), ("Katowice Brynów", "Bry", 3.88), ("Katowice Ligota", "KL", 6.08),
            ("Katowice Piotrowice", "KtP", 7.75), ("Katowice Podlesie", "", 11.35), ("Mąkołowiec", "Mc", 14.04),
            ("Tychy", "Ty", 16.97)],
    "140": [("Katowice Ligota", "KL", 0.0), ("Katowice Piotrowice", "KtP", 1.66), ("Mikołów Jamna", "MJ", 5.86),
            ("Mikołów", "Mi", 8.75)],
    "depot527": [("Katowice Stacja Manewrowa", "KO(STM)", 0.0), ("Katowice Zawodzie Postojowa", "KO(IC)", 0.9)],
    "depot200": [("Katowice", "KO", 0.0), ("Katowice Raciborska", "KO(KS)", 0.5)],
}
# diagrams: the stations in order, by name; the call signs of the timetables
SEGMENTS = {
    "137139GLYTy": ["Gliwice", "Zabrze", "Ruda Śląska", "Ruda Chebzie", "Świętochłowice", "Chorzów Batory",
                    "Katowice Towarowa KTC", "Katowice", "Katowice Brynów", "Katowice Ligota", "Katowice Piotrowice",
                    "Katowice Podlesie", "Mąkołowiec", "Tychy"],
    "137138GLYKZ": ["Gliwice", "Zabrze", "Ruda Śląska", "Ruda Chebzie", "Świętochłowice", "Chorzów Batory",
                    "Katowice Towarowa KTC", "Katowice", "Katowice Stacja Manewrowa", "Katowice Zawodzie"],
    "138139KZTY": ["Katowice Zawodzie", "Katowice Stacja Manewrowa", "Katowice", "Katowice Brynów", "Katowice Ligota",
                   "Katowice Piotrowice", "Katowice Podlesie", "Mąkołowiec", "Tychy"],
}
SIGNS = {"Gliwice": "GLC", "Zabrze": "ZZ", "Ruda Chebzie": "RCB", "Chorzów Batory": "CB", "Katowice Towarowa KTC": "KTC",
         "Katowice": "KO", "Katowice Stacja Manewrowa": "KO(STM)", "Katowice Zawodzie": "KZ", "Katowice Brynów": "Bry",
         "Katowice Ligota": "KL", "Katowice Piotrowice": "KtP", "Mąkołowiec": "Mc", "Tychy": "Ty"}
STM = 0.5  # the shunting yard lies half a kilometre from Katowice, towards Zawodzie
FOREIGN = ("MJ", "Mi", "Gt", "KO(IC)", "Nowhere")
EPS = 0.05
T0 = datetime.datetime(2020, 1, 1, 16, 0)
BOUND = {
    "quick": "all timetables of up to four stations with arrivals and departures apart by 0, 1 or 1430 minutes, the solution "
             "0, 3 or 700 minutes later than the plan, with and without the departure of the last station, listed in every order; "
             "all routes of up to three stations (and all sets of four) of the stations of each segment and 5 others, by call "
             "sign or name, with three sets of exceptions; every pair of stations of each segment and line; all sets of lines; "
             "the diagrams drawn and the lists printed from the 60 recorded schedules of the 10 shipped cases",
    "thorough": "as quick with all routes of four stations",
}
ASSUMPTIONS = ["only the first station has no arrival", f"distances agree within {EPS} km"]


def modules(ctx):
    base = os.path.join(ctx.repo, "solutions_quantum", "data4diagrams")
    if base not in sys.path:
        sys.path.append(base)
    import railway_lines
    import train_utils

    return railway_lines, train_utils


def positions(segment):
    """km of every station of a segment from the kilometres of the lines"""
    out, at = {}, 0.0
    names = SEGMENTS[segment]
    plain = [n for n in names if n != "Katowice Stacja Manewrowa"]
    for i, n in enumerate(plain):
        if i:
            steps = [abs(dict((x, km) for x, _, km in stations)[n] - dict((x, km) for x, _, km in stations)[plain[i - 1]])
                     for stations in LINES.values() if {n, plain[i - 1]} <= {x for x, _, _ in stations}]
            at += steps[0]
        out[n] = at
    if "Katowice Stacja Manewrowa" in names:
        out["Katowice Stacja Manewrowa"] = out["Katowice"] + (STM if out["Katowice Zawodzie"] > out["Katowice"] else -STM)
    return out


def instances(tier):
    yield ("lines",)
    for s in SEGMENTS:
        yield ("km", s)
        first = list(range(len(SEGMENTS[s]) + len(FOREIGN)))
        for f in first:
            yield ("routes", s, f)
    for n in (1, 2, 3, 4):
        for steps in itertools.product((0, 1, 1430), repeat=n - 1):
            for late in (0, 3, 700):
                for last in (False, True):
                    yield ("path", n, steps, late, last)
    for case in range(10):
        for segment in SEGMENTS:
            yield ("diagram", case, segment)
        yield ("list", case)


def timetable(n, steps, late, last, stop=1):
    """a published timetable in travel order and the expected rows of both variants"""
    names = ("KO", "KO(STM)", "Mi", "KZ")[:n]
    plan, at = {}, T0
    rows = {"resolved": [], "conflicted": []}
    for i, s in enumerate(names):
        entry = {}
        if i:
            at = at + datetime.timedelta(minutes=steps[i - 1])
            entry["arrive"] = at + datetime.timedelta(minutes=late)
            entry["conflicted_arrive"] = at
        at = at + datetime.timedelta(minutes=stop)
        if i < n - 1 or last:
            entry.update({"departure": at + datetime.timedelta(minutes=late), "secondary delay": late,
                          "conflicted_departure": at, "impact_to_objective": 0.5})
        plan[s] = entry
        rows["resolved"].append((s, entry.get("arrive"), entry.get("departure")))
        rows["conflicted"].append((s, entry.get("conflicted_arrive"), entry.get("conflicted_departure")))
    return plan, rows


def path_rows(train):
    return [(p["station"], p["arrival"], p["departure"]) for p in train.path]


def examine(inst, ctx):
    kind = inst[0]
    if kind == "path":
        paths(ctx, *inst[1:])
    elif kind == "lines":
        lines(ctx)
    elif kind == "km":
        kilometres(ctx, inst[1])
    elif kind == "routes":
        routes(ctx, *inst[1:])
    elif kind == "diagram":
        diagram(ctx, *inst[1:])
    else:
        listing(ctx, inst[1])
    ctx.sample(repr(inst))


def paths(ctx, n, steps, late, last):
    _, tu = modules(ctx)
    plan, rows = timetable(n, steps, late, last)
    for order in itertools.permutations(plan):
        given = {s: dict(plan[s]) for s in order}
        for number in (7, "Ks1"):
            for status in ("resolved", "conflicted", None):
                ctx.state()
                ctx.trace()
                ctx.step(n)
                with ctx.code("converting a timetable to a path"):
                    t = tu.kdtrain2trainpath(number, given) if status is None else tu.kdtrain2trainpath(number, given, status=status)
                    got = path_rows(t)
                want = rows[status or "resolved"]
                if got != want:
                    ctx.fail(f"{status} path {got} instead of {want}; timetable {given}")
                if list(t.route) != [r[0] for r in want] or t.number != str(number) or t.status != (status or "resolved"):
                    ctx.fail(f"train {t.number}, {t.status}, route {t.route}; requested {number}, {status}")
                with ctx.code("printing a path"):
                    text = str(t)
                if str(number) not in text or any(s not in text for s in plan):
                    ctx.fail(f"the printed path {text!r} lacks the number or a station")
                ctx.outcome((n, steps, late, last, status))


def lines(ctx):
    rl, _ = modules(ctx)
    names = {}
    for line, stations in LINES.items():
        for i, (name, sign, km) in enumerate(stations):
            names.setdefault(name, []).append((line, i))
            if sign:
                names.setdefault(sign, []).append((line, i))
    # the kilometres
    for line, stations in LINES.items():
        with ctx.code("reading the lines"):
            table = [(s["name"], s["callsign"], s["km"]) for s in rl.RAILWAYLINES[line]]
        if [t[:2] for t in table] != [s[:2] for s in stations] or any(abs(t[2] - s[2]) > EPS for t, s in zip(table, stations)):
            ctx.fail(f"line {line}: {table}, the stations are {stations}")
    ctx.same(set(rl.RAILWAYLINES), set(LINES), "lines")
    for s, want in list(names.items()) + [(f, []) for f in ("Nowhere", "Gt")]:
        ctx.state()
        ctx.step()
        with ctx.code("looking a station up"):
            got = sorted(map(tuple, rl.station_on_lines(s)))
        if got != sorted(want):
            ctx.fail(f"station {s} is on {got}, expected {sorted(want)}")
    ordered = [s for s in names if s == s and len(s) < 8] + ["Nowhere"]
    for n in (1, 2, 3):
        for route in itertools.permutations(ordered, n) if n < 3 else itertools.permutations(ordered[:9], 3):
            for chosen in ({"137"}, {"137", "139"}, {"138", "140", "depot200"}, set(LINES), set()):
                ctx.state()
                ctx.trace()
                with ctx.code("placing a route on lines"):
                    got = [sorted(map(tuple, x)) for x in rl.route_on_lines(list(route), chosen)]
                want = [sorted(p for p in names.get(s, []) if p[0] in chosen) for s in route]
                want = [w for w in want if w]
                if got != want:
                    ctx.fail(f"route {route} on the lines {sorted(chosen)}: {got}, expected {want}")
                ctx.outcome(repr(want))


def spellings(name):
    out = {name, name.upper(), name.lower()}
    if name in SIGNS:
        out |= {SIGNS[name], SIGNS[name].upper(), SIGNS[name].lower()}
    return sorted(out)


def kilometres(ctx, segment):
    rl, _ = modules(ctx)
    want = positions(segment)
    got = {}
    for n in SEGMENTS[segment]:
        for s in spellings(n):
            ctx.state()
            ctx.step()
            with ctx.code("placing a station on a segment"):
                got[n] = rl.station2km(s, segment)
                on = rl.station_on_segment(s, segment)
            if not on:
                ctx.fail(f"{s} is not found on the segment {segment}")
            if abs(got[n] - want[n]) > EPS:
                ctx.fail(f"{s} lies at {got[n]} km of the segment {segment}, from the lines it is {want[n]:.2f}")
    for a, b in itertools.combinations(SEGMENTS[segment], 2):
        ctx.state()
        ctx.trace()
        for stations in LINES.values():
            km = {n: k for n, _, k in stations}
            if a in km and b in km and abs(abs(got[a] - got[b]) - abs(km[a] - km[b])) > EPS:
                ctx.fail(f"{a} - {b}: {abs(got[a] - got[b]):.2f} km on the segment {segment}, {abs(km[a] - km[b]):.2f} on the line")
    for s in FOREIGN:
        ctx.refused(lambda: rl.station2km(s, segment), f"position of {s} on the segment {segment}")
        if rl.station_on_segment(s, segment):
            ctx.fail(f"{s} is found on the segment {segment}")
    ctx.outcome(segment)


EXCEPTIONS = ((), ("KO", "KO(STM)"), ("cb", "Nowhere", "Katowice Ligota"))


def routes(ctx, segment, first):
    rl, tu = modules(ctx)
    stations = [(SIGNS.get(n, n), True) for n in SEGMENTS[segment]] + [(f, False) for f in FOREIGN]
    train = tu.TrainPath()
    train.status = "resolved"
    rest = [i for i in range(len(stations)) if i != first]
    deep = 3 if ctx.tier == "thorough" else 2
    tails = itertools.chain(*(itertools.permutations(rest, n) for n in range(deep + 1)),
                            itertools.combinations([i for i in rest if i > first], 3) if deep < 3 else ())
    for tail in tails:
        route = [stations[first]] + [stations[i] for i in tail]
        train.route = [s for s, _ in route]
        for exceptions in EXCEPTIONS:
            ctx.state()
            ctx.trace()
            ctx.step()
            out = {e.upper() for e in exceptions}
            want = sum(1 for s, on in route if on and s.upper() not in out)
            with ctx.code("testing whether a train is on a segment"):
                got = rl.train_on_segment(train, segment, exceptions=list(exceptions)) if exceptions else rl.train_on_segment(train, segment)
            # the diagrams take trains with at least two stations
            if (got >= 2) != (want >= 2) or int(got) != want:
                ctx.fail(f"route {train.route} calls at {want} stations of {segment} (without {exceptions}), reported {got}")
            ctx.outcome((segment, want))


def run_script(ctx, name, args):
    modules(ctx)
    path = os.path.join(ctx.repo, "solutions_quantum", "data4diagrams", name)
    old = sys.argv
    sys.argv = [name] + args
    out = io.StringIO()
    try:
        with ctx.code(f"running {name} {args}"):
            with contextlib.redirect_stdout(out):
                runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
    return out.getvalue()


def stored(ctx, case):
    """the recorded schedules as the scripts take them: (file, realisation, schedule)"""
    classic = None
    quantum = {}
    for what, s in recorded.schedules(ctx, case):
        if what == "PULP_CBC_CMD":
            classic = s
        else:
            quantum[int(what.split()[1])] = s
    base = os.path.join(ctx.repo, "solutions_quantum", "data4diagrams")
    yield os.path.join(base, f"PULP_CBC_CMD_case{case}_Integer.pkl"), None, classic
    for i, s in quantum.items():
        yield os.path.join(base, f"cqm5_case{case}_Integer.pkl"), i, s


def expected_drawing(schedule, segment, fixed):
    """multiset of (variant, points, labels) of a diagram"""
    km = {}
    for n, x in positions(segment).items():
        for s in spellings(n):
            km[s.upper()] = x
    out = []
    for j, stations in schedule.items():
        calls = [s for s in stations if s.upper() in km and s.upper() not in ("KO", "KO(STM)")]
        if len(calls) < 2 and str(j) not in fixed:
            continue
        for variant, prefix in (("resolved", ""), ("conflicted", "conflicted_")):
            points, labels, prev = [], [], None
            for s, f in stations.items():
                if s.upper() not in km:
                    continue
                x = km[s.upper()]
                arrive, leave = f.get(prefix + "arrive"), f.get(prefix + "departure")
                if arrive is not None:
                    points.append((x, arrive.strftime("%H:%M")))
                    if prev:
                        labels.append(((x + prev[0]) / 2, (prev[1] + (arrive - prev[1]) / 2).strftime("%H:%M"), str(j)))
                if leave is not None:
                    points.append((x, leave.strftime("%H:%M")))
                    prev = (x, leave)
            out.append((variant, points, labels))
    return out


def diagram(ctx, case, segment):
    for file, i, schedule in stored(ctx, case):
        for fixed in ((), tuple(str(j) for j in list(schedule)[:2])):
            ctx.state()
            ctx.trace()
            args = [file, "--segment", segment]
            if i is not None:
                args += ["--realisation", str(i)]
            if fixed:
                args += ["--fixedtrains", ",".join(fixed)]
            text = run_script(ctx, "echo_gnuplot_file.py", args)
            blocks = {m.group(1): [x.split() for x in m.group(2).strip().split("\n") if x.strip()]
                      for m in re.finditer(r"^\$(\w+) << EOD\n(.*?)^EOD$", text, re.S | re.M)}
            styles = dict(re.findall(r"\$(\w+) using 1:2 with lines.*? ls (\d)", text))
            labels = set(re.findall(r"\$(\w+) using 1:2:3 with labels", text))
            got = []
            for name, ls in styles.items():
                if name not in blocks:
                    ctx.fail(f"{args}: the data {name} that are drawn are not given")
                number = re.search(r"\d+$", name).group()
                label = [b for b in blocks if b in labels and re.search(r"\d+$", b).group() == number]
                if len(label) != 1:
                    ctx.fail(f"{args}: the labels of {name} are not drawn")
                got.append(({"1": "resolved", "2": "conflicted"}[ls], [(float(x), t) for x, t in blocks[name]],
                            [(float(x), t, n) for x, t, n in blocks[label[0]]]))
            ticks = [(n, float(x)) for n, x in re.findall(r'"([^"]+)" ([\d.]+)', re.search(r"^set xtics \((.*)\)$", text, re.M).group(1))]
            km = positions(segment)
            signed = sorted(km[n] for n in km if n in SIGNS or n == "Ruda Śląska")
            if len(ticks) != len(signed) or any(abs(x - y) > EPS for x, y in zip(sorted(x for _, x in ticks), signed)):
                ctx.fail(f"{args}: stations marked at {ticks}, expected at {signed}")
            for n, x in ticks:
                if any(n == SIGNS.get(m) and abs(x - km[m]) > EPS for m in km):
                    ctx.fail(f"{args}: {n} is marked at {x} km")
            want = expected_drawing(schedule, segment, fixed)
            ctx.step(len(want))
            if not close(sorted(got, key=key), sorted(want, key=key)):
                extra = [g for g in got if not any(close([g], [w]) for w in want)][:2]
                missing = [w for w in want if not any(close([w], [g]) for g in got)][:2]
                ctx.fail(f"{args}: {len(got)} trains drawn, expected {len(want)}; drawn wrongly {extra}, expected {missing}")
            ctx.outcome((case, segment, i, len(want)))
            ctx.count("drawn", len(want))


def key(row):
    variant, points, labels = row
    return (variant, [t for _, t in points], [(t, n) for _, t, n in labels], [round(x) for x, _ in points])


def close(a, b):
    if len(a) != len(b):
        return False
    for (v, p, l), (v2, p2, l2) in zip(a, b):
        if v != v2 or len(p) != len(p2) or len(l) != len(l2):
            return False
        if any(t != t2 or abs(x - x2) > EPS for (x, t), (x2, t2) in zip(p, p2)):
            return False
        if any((t, n) != (t2, n2) or abs(x - x2) > EPS for (x, t, n), (x2, t2, n2) in zip(l, l2)):
            return False
    return True


def listing(ctx, case):
    _, tu = modules(ctx)
    for file, i, schedule in stored(ctx, case):
        ctx.state()
        ctx.trace()
        text = run_script(ctx, "read_quantum_pickle.py", [file] + ([] if i is None else [str(i)]))
        for j in schedule:
            for status in ("conflicted", "resolved"):
                ctx.step()
                want = str(tu.kdtrain2trainpath(j, schedule[j], status=status))
                if want not in text:
                    ctx.fail(f"case {case}, realisation {i}: the {status} path of train {j} is not printed")
                ctx.count("listed")


def finish(ctx, tier):
    if not ctx.counts.get("drawn") or not ctx.counts.get("listed"):
        return "no diagram or no list was explored"
    return None
