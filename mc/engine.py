"""Exhaustive exploration engine.

A check is a module checks/cNN.py with

    PROPERTY   the id
    instances(tier)    generator of the finite instance space, in a fixed order;
                       an instance is a value that survives repr / literal_eval
    examine(inst, ctx) explores every behaviour of one instance on the code of
                       the repository and reports to ctx
    BOUND      dict describing the explored space (for the evidence)
    ASSUMPTIONS list of strings

optionally

    finish(ctx, tier)  whole-run obligations (non-vacuity), run in the parent

The instance space is enumerated completely; the workers take residue classes
of the instance number, so the union of what they see is the whole space.
"""
import ast
import contextlib
import errno
import importlib
import io
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

MAX_VIOLATIONS_PER_WORKER = 3
INSTANCE_SECONDS = 300  # SECONDS of the check overrides it


class InstanceTimeout(BaseException):
    pass


class Broken(Exception):
    """raised by ctx.fail to leave the instance at once"""


class Ctx:
    """what the exploration of instances reports to"""

    def __init__(self, tier, seed, repo):
        self.tier = tier
        self.seed = seed
        self.repo = repo
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.instances = 0
        self.counts = {}
        self.samples = []
        self.outcomes = set()
        self.violations = []
        self._inst = None
        self.stuck = False

    # --- counting
    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def outcome(self, value):
        """a distinct observed behaviour (kept small: hashes)"""
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(value))

    def sample(self, value):
        if len(self.samples) < 1:
            self.samples.append(value)

    # --- judging
    def fail(self, message, key=None):
        """the property is broken on the current instance"""
        self.violations.append(
            {"instance": repr(self._inst), "message": str(message)[:4000], "key": key}
        )
        raise Broken()

    def note(self, message, key=None):
        """as fail, but the exploration of the instance goes on"""
        self.violations.append(
            {"instance": repr(self._inst), "message": str(message)[:4000], "key": key}
        )

    def same(self, got, want, what):
        if got != want:
            self.fail(f"{what}: the code gives {got!r}, expected {want!r}")

    @contextlib.contextmanager
    def code(self, what):
        """the code under test runs inside; any exception it raises on a valid
        input breaks the property"""
        try:
            yield
        except (Broken, InstanceTimeout, KeyboardInterrupt):
            raise
        except BaseException as e:  # SystemExit included
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb if f.filename.startswith(self.repo)]
            where = f" at {os.path.relpath(where[-1].filename, self.repo)}:{where[-1].lineno}" if where else ""
            self.fail(f"{what} raised {type(e).__name__}: {e}{where}")

    def refused(self, func, what):
        """the code under test has to raise"""
        try:
            value = func()
        except (InstanceTimeout, KeyboardInterrupt):
            raise
        except BaseException:
            return
        self.fail(f"{what}: expected a refusal, the code gives {value!r}")


def _alarm(signum, frame):
    raise InstanceTimeout()


def _explore(module, inst, ctx):
    ctx._inst = inst
    ctx.instances += 1
    signal.signal(signal.SIGALRM, _alarm)
    seconds = getattr(module, "SECONDS", INSTANCE_SECONDS)
    signal.alarm(seconds)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            module.examine(inst, ctx)
    except Broken:
        pass
    except MemoryError:
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
            raise
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        ctx.violations.append(
            {"instance": repr(inst), "message": f"{type(e).__name__}: {e} ({where})", "key": None}
        )
    except InstanceTimeout:
        ctx.violations.append(
            {"instance": repr(inst), "message": f"no answer after {seconds} s", "key": None}
        )
        ctx.stuck = True
    finally:
        signal.alarm(0)


def _scratch_cwd(repo):
    """code under test may write into its working directory: give it one"""
    base = tempfile.mkdtemp(prefix="mc_")
    os.symlink(os.path.join(repo, "data"), os.path.join(base, "data"))
    os.chdir(base)
    return base


def _worker(name, tier, seed, here, repo, k, n, out):
    base = None
    try:
        base = _scratch_cwd(repo)
        sys.stdout = open(os.devnull, "w")
        module = importlib.import_module("checks." + name.lower())
        ctx = Ctx(tier, seed, repo)
        known = load_known(here)
        if hasattr(module, "prepare"):
            module.prepare(ctx)
        for i, inst in enumerate(module.instances(tier)):
            if i % n != k:
                continue
            _explore(module, inst, ctx)
            fresh = [v for v in ctx.violations if (module.PROPERTY, v["key"]) not in known]
            if len(fresh) >= MAX_VIOLATIONS_PER_WORKER or ctx.stuck:
                break
        result = {"ok": True, "ctx": ctx}
    except BaseException:
        result = {"ok": False, "error": traceback.format_exc()}
    try:
        with open(out, "wb") as f:
            pickle.dump(result, f)
    finally:
        os.chdir("/")
        if base:
            shutil.rmtree(base, ignore_errors=True)
    os._exit(0)


def load_known(here):
    """known findings: lines `property=<id> key=<key> <what fails>`"""
    known = {}
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if line.startswith("property="):
                parts = line.split(" ", 2)
                prop = parts[0][len("property="):]
                key = parts[1][len("key="):]
                known[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return known


def main(argv, here, repo):
    name = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    replay = None
    if "--replay" in argv:
        replay = os.path.abspath(argv[argv.index("--replay") + 1])

    module = importlib.import_module("checks." + name.lower())
    prop = module.PROPERTY
    evdir = os.path.join(here, "evidence")
    os.makedirs(evdir, exist_ok=True)

    if replay:
        data = json.load(open(replay, encoding="utf8"))
        base = _scratch_cwd(repo)
        ctx = Ctx(tier, seed, repo)
        try:
            if hasattr(module, "prepare"):
                module.prepare(ctx)
            for text in data["instances"]:
                _explore(module, ast.literal_eval(text), ctx)
        finally:
            os.chdir("/")
            shutil.rmtree(base, ignore_errors=True)
        for v in ctx.violations:
            print("reproduced:", v["message"])
        return 1 if ctx.violations else 0

    workers = getattr(module, "WORKERS", 8)
    tmp = tempfile.mkdtemp(prefix="mc_run_")
    ctxs, errors = [], []
    try:
        procs = []
        for k in range(workers):
            out = os.path.join(tmp, f"{k}.pkl")
            p = multiprocessing.get_context("fork").Process(
                target=_worker, args=(name, tier, seed, here, repo, k, workers, out)
            )
            p.start()
            procs.append((p, out))
        for p, out in procs:
            p.join()
            if not os.path.exists(out):
                errors.append(f"worker died with exit code {p.exitcode}")
                continue
            r = pickle.load(open(out, "rb"))
            if r["ok"]:
                ctxs.append(r["ctx"])
            else:
                errors.append(r["error"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    total = Ctx(tier, seed, repo)
    for c in ctxs:
        total.states += c.states
        total.transitions += c.transitions
        total.traces += c.traces
        total.instances += c.instances
        for k, v in c.counts.items():
            total.count(k, v)
        total.outcomes |= c.outcomes
        total.violations += c.violations
        for s in c.samples:
            if len(total.samples) < 3:
                total.samples.append(s)

    known = load_known(here)
    fresh, seen = [], set()
    for v in total.violations:
        if v["key"] is not None and (prop, v["key"]) in known:
            seen.add(v["key"])
        else:
            fresh.append(v)
    if errors and not fresh:
        print("ERROR of the check:\n" + "\n".join(errors), file=sys.stderr)
        return 2

    if not fresh and hasattr(module, "finish"):
        # obligations on the exploration as a whole (vacuity): an unmet one is an
        # error of the check, not a verdict
        problem = module.finish(total, tier)
        if problem:
            print("ERROR of the check: " + problem, file=sys.stderr)
            return 2

    for key in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {key} {known[(prop, key)]}")

    coverage = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "samples": total.samples,
        "exhaustive": not fresh,
        "instances": total.instances,
        "distinct_outcomes": len(total.outcomes),
        "bound": module.BOUND.get(tier, module.BOUND) if isinstance(module.BOUND, dict) else module.BOUND,
    }
    coverage.update(total.counts)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "violations": len(fresh),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w", encoding="utf8") as f:
        json.dump(evidence, f, indent=1, default=str, ensure_ascii=False)

    print(
        f"{prop} {tier}: {total.instances} instances, {total.states} states, "
        f"{total.transitions} transitions, {total.traces} traces on the implementation, "
        f"{len(total.outcomes)} distinct outcomes, {evidence['wall_s']} s"
    )
    rpath = os.path.join(evdir, f"{prop}.replay.json")
    if fresh:
        with open(rpath, "w", encoding="utf8") as f:
            json.dump(
                {
                    "property": prop,
                    "instances": [v["instance"] for v in fresh],
                    "messages": [v["message"] for v in fresh],
                    "replay": f"cd /verif && /opt/venv/bin/python run.py {name} --replay {rpath}",
                },
                f,
                indent=1,
                ensure_ascii=False,
            )
        for v in fresh[:5]:
            print(f"  instance {v['instance'][:600]}\n    {v['message'][:600]}")
        print(f"VIOLATION property={prop} replay={rpath}")
        return 1
    if os.path.exists(rpath):
        os.remove(rpath)
    return 0
