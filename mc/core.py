"""
The common driver of every check.

A property module defines PARTS, a list of Part objects.  A Part names a finite
space of *cases* (input words, operation sequences, schedules...) for a tier and
a `check(case, st)` that executes the REAL code of /repo on that case, next to a
reference model, and raises Violation where they differ.  A case is always a
plain Python literal, so a violation's replay file is: part name + repr(case).

Cases are enumerated completely: worker k of n takes every n-th case.  There is
no sampling and no time-out that cuts an enumeration short.
"""
import ast
import gc
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("BIG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("MC_OUT") or os.path.join(VERIF, "evidence")   # MC_OUT: development only
HANG_SECONDS = 30
WORKER_MEMORY = 6 << 30


def setup_imports():
    sys.dont_write_bytecode = True
    # never read a stale .pyc: look for bytecode in a place that has none
    sys.pycache_prefix = "/nonexistent-pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class Hang(BaseException):
    pass


def fail(message, key=None):
    raise Violation(message, key)


def expect(got, want, what, key=None):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}", key)


def outcome(f, *args, **kwargs):
    """
    Run f; return ('ret', value) or ('exc', exception type name).
    """
    try:
        return ('ret', f(*args, **kwargs))
    except Exception as e:
        return ('exc', type(e).__name__)


class Stats:
    """What was actually covered; merged over the workers."""
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.extra.items():
            if k.startswith("max "):
                self.extra[k] = max(self.extra.get(k, 0), v)
            else:
                self.extra[k] = self.extra.get(k, 0) + v
        self.samples.extend(o.samples)


class Part:
    """
    cases(tier)      -> iterable of literal cases, shortest first
    check(case, st)  -> run the code under test on it; raise Violation.
                        Bumps st.states / st.transitions / st.traces itself
                        only if counted=False... otherwise one case is one
                        state, `weight` transitions and one trace.
    """
    def __init__(self, name, cases, check, *, bound="", auto=True, parallel=True, setup=None):
        self.name = name
        self.cases = cases
        self.check = check
        self.bound = bound
        self.auto = auto
        self.parallel = parallel
        self.setup = setup


# A case hangs if it takes HANG_SECONDS of processor time, or if it's idle for
# six intervals in a row.  Wall-clock time alone proves nothing: a busy machine
# may not let us run for a while, or be suspended.
INTERVAL = 10
_hang = {"start": 0.0, "last": 0.0, "idle": 0, "alarms": 0}


def _on_alarm(signum, frame):
    t = time.process_time()
    _hang["alarms"] += 1
    _hang["idle"] = _hang["idle"] + 1 if t - _hang["last"] < 0.05 else 0
    _hang["last"] = t
    if t - _hang["start"] >= _hang["limit"] or _hang["idle"] >= 6 or _hang["alarms"] >= 40:
        disarm()
        raise Hang()


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


def rearm(limit=HANG_SECONDS):
    """A long case proves that it is still getting somewhere."""
    _hang.update(start=time.process_time(), last=time.process_time(), idle=0, alarms=0, limit=limit)
    signal.setitimer(signal.ITIMER_REAL, INTERVAL, INTERVAL)


def _check_one(part, case, st):
    """Returns None, or (message, key)."""
    rearm()
    try:
        part.check(case, st)
        return None
    except Violation as v:
        return (v.message, v.key)
    except Hang:
        return (f"did not terminate within {HANG_SECONDS} s of processor time, or waits forever", None)
    except MemoryError:
        return ("used more than the memory limit", None)
    except RecursionError as e:
        return (f"unbounded recursion: {e}", None)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.format_exc(limit=-6)
        return (f"unexpected {type(e).__name__}: {e}\n{tb}", None)
    finally:
        disarm()


def _worker(part, tier, k, n, conn, known_keys, first_bad):
    st = Stats()
    found = None
    known = {}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
        signal.signal(signal.SIGALRM, _on_alarm)
        gc.freeze()
        if part.setup:
            part.setup(k)
        count = 0
        for i, case in enumerate(part.cases(tier)):
            if i % n != k:
                continue
            if first_bad.value < i:
                break
            count += 1
            if part.auto:
                st.states += 1
                st.transitions += 1
                st.traces += 1
            bad = _check_one(part, case, st)
            if bad:
                if bad[1] is not None and bad[1] in known_keys:
                    known.setdefault(bad[1], (i, repr(case), bad[0]))
                    continue
                found = (i, repr(case), bad[0], bad[1])
                first_bad.value = min(first_bad.value, i)
                break
            if count in (1, 200, 5000):
                st.samples.append(f"{part.name}: {case!r}"[:400])
        st.bump(f"cases[{part.name}]", count)
    except Violation as v:
        found = (-1, "None", v.message, v.key)
    except BaseException as e:
        found = (-1, "None", f"unexpected {type(e).__name__} while enumerating: {e}\n{traceback.format_exc(limit=-6)}", None)
    try:
        conn.send((st, found, known))
    except BaseException:
        try:
            conn.send((Stats(), found, known))
        except BaseException:
            pass
    conn.close()
    os._exit(0)


def _collect(jobs):
    results = []
    for part, proc, conn in jobs:
        try:
            st, found, known = conn.recv()
        except EOFError:
            st, found, known = Stats(), (-1, "None", "worker process died (crash or out of memory)", None), {}
        results.append((part, st, found, known))
    for _, proc, conn in jobs:
        proc.join()
        conn.close()
    return results


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> <what fails>'"""
    path = os.path.join(VERIF, "known_findings.txt")
    known = {}
    try:
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                fields = line.split(None, 3)
                prop = fields[1].split("=", 1)[1]
                key = fields[2].split("=", 1)[1]
                known.setdefault(prop, {})[key] = fields[3]
    except FileNotFoundError:
        pass
    return known


def load_property(pid):
    setup_imports()
    module = importlib.import_module(f"mc.{pid.lower()}")
    sizes = importlib.import_module("mc.sizes")
    if not hasattr(module, "_sized"):
        module._sized = True
        module.PARTS = list(module.PARTS) + sizes.for_property(pid)
    return module


def run_property(pid, tier, seed, jobs=None):
    start = time.time()
    replay_dir = os.path.join(OUT, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, f"{pid}.json")
    known_keys = load_known().get(pid, {})
    total = Stats()
    violations = []
    seen_known = {}
    bounds = []
    assumptions = []

    try:
        signal.signal(signal.SIGALRM, _on_alarm)
        rearm(120)
        try:
            module = load_property(pid)
            parts = module.PARTS
        finally:
            disarm()
        assumptions = list(getattr(module, "ASSUMPTIONS", []))
    except BaseException as e:
        parts = []
        violations.append((0, -1, "import", "None", f"cannot even load the code under test: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}"))

    n = jobs or int(os.environ.get("MC_JOBS") or 0) or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    timings = {}
    for index, part in enumerate(parts):
        t0 = time.time()
        bounds.append(f"{part.name}: {part.bound}")
        js = []
        if hasattr(part, "inits"):
            from . import search
            st, found = search.run(part, tier, n, ctx)
            total.merge(st)
            if found:
                violations.append((index, found[0], part.name, found[1], found[2]))
            timings[part.name] = round(time.time() - t0, 2)
            if os.environ.get("MC_VERBOSE"):
                print(f"  {part.name}: {timings[part.name]}s", flush=True)
            if violations:
                break
            continue
        nn = n if part.parallel else 1
        first_bad = ctx.Value("q", 1 << 62)
        for k in range(nn):
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(part, tier, k, nn, b, known_keys, first_bad), daemon=True)
            p.start()
            b.close()
            js.append((part, p, a))
        for part_, st, found, known in _collect(js):
            total.merge(st)
            for key, v in known.items():
                seen_known.setdefault(key, v)
            if found:
                i, case, message, key = found
                violations.append((index, i, part.name, case, message))
        timings[part.name] = round(time.time() - t0, 2)
        if os.environ.get("MC_VERBOSE"):
            print(f"  {part.name}: {timings[part.name]}s cases={total.extra.get(f'cases[{part.name}]')}", flush=True)
        if violations:
            break

    violations.sort(key=lambda v: (v[0], v[1]))
    total.samples.sort(key=len)
    samples = total.samples[:12] or ["(none reached)"]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total.states,
            "transitions": total.transitions,
            "traces_validated_against_impl": total.traces,
            "samples": samples,
            "bounds": bounds,
            "counters": dict(sorted(total.extra.items())),
            "part_seconds": timings,
            "exhaustive": not violations,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{pid}.json")
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path), prefix=f".{pid}.")
    with os.fdopen(fd, "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")
    os.replace(tmp, path)

    for key, text in known_keys.items():
        if not violations or key in seen_known:
            print(f"KNOWN-FINDING: property={pid} {text}")

    if violations:
        _, i, name, case, message = violations[0]
        if len(message) > 3000:
            message = message[:2000] + " ... " + message[-900:]
        with open(replay, "w") as f:
            json.dump({"property": pid, "part": name, "case": case, "message": message,
                       "how": f"/opt/venv/bin/python /verif/check.py --replay {replay}"}, f, indent=1)
            f.write("\n")
        print(f"part {name}, case {case}\n{message}")
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
        return 1
    print(f"OK property={pid} tier={tier} states={total.states} transitions={total.transitions} traces={total.traces} wall={evidence['wall_s']}s")
    return 0


def replay_file(path):
    with open(path) as f:
        r = json.load(f)
    module = load_property(r["property"])
    for part in module.PARTS:
        if part.name == r["part"]:
            break
    else:
        print("no such part")
        return 2
    signal.signal(signal.SIGALRM, _on_alarm)
    if part.setup:
        part.setup(0)
    bad = _check_one(part, ast.literal_eval(r["case"]), Stats())
    if bad:
        print(bad[0])
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("the case passes now")
    return 0
