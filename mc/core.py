"""Explorer core: choice-tree exploration, parallel replay on the implementation, reporting.

A *driver* is a function ``driver(ch)`` that builds one execution (a history of events and the
state the reference model reaches) and takes every nondeterministic decision with
``ch(label, options)``.  ``explore`` runs the driver once for every vector of decisions with at
most ``bound`` departures from the first (default) option: stateless exploration with iterative
deviation bounding.  ``bound=None`` explores the complete tree.
"""
import contextlib
import io
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback

logging.disable(logging.CRITICAL)

REPO = os.environ.get("ACLTK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MC_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
CASE_TIMEOUT = 60  # seconds one replayed trace may take before it counts as a hang
MAX_REPORT = 5
MAX_FOUND = 40


# --------------------------------------------------------------------------------------------
# choice trees
class Choice:
    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []  # (label, number of options, index taken)

    def __call__(self, label, options):
        options = options if isinstance(options, (list, tuple)) else list(options)
        n = len(self.points)
        i = self.prefix[n] if n < len(self.prefix) else 0
        if i >= len(options):
            raise RuntimeError("replaying a choice prefix diverged: the driver is not deterministic")
        self.points.append((label, len(options), i))
        return options[i]

    @property
    def vector(self):
        return [p[2] for p in self.points]


def explore(driver, bound=None, stats=None):
    """Yield (choice vector, driver result) for every execution within the deviation bound."""
    stack = [([], 0)]
    while stack:
        prefix, dev = stack.pop()
        ch = Choice(prefix)
        result = driver(ch)
        points = ch.points
        if stats is not None:
            stats["transitions"] = stats.get("transitions", 0) + len(points) - max(0, len(prefix) - 1)
        todo = []
        if bound is None or dev < bound:
            for i in range(len(prefix), len(points)):
                base = [p[2] for p in points[:i]]
                for alt in range(1, points[i][1]):
                    todo.append((base + [alt], dev + 1))
        stack.extend(reversed(todo))
        if result is not None:
            yield ch.vector, result


# --------------------------------------------------------------------------------------------
# one replay, guarded
class Hang(Exception):
    pass


def _alarm(sig, frame):
    raise Hang("no result after the time limit")


class limit:
    """Turn a hang of the code under test into an exception."""

    def __init__(self, seconds=CASE_TIMEOUT):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def guarded(fn, *args, seconds=CASE_TIMEOUT, **kw):
    """-> ("ok", value) | ("error", text).  Every failure of the code under test is an outcome."""
    try:
        with limit(seconds):
            return "ok", fn(*args, **kw)
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa - SystemExit included
        return "error", f"{type(e).__name__}: {str(e).splitlines()[0] if str(e) else ''}"[:300]


# --------------------------------------------------------------------------------------------
class Result:
    """What one worker saw."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.outcomes = {}

    def state(self, canonical):
        self.states.add(hash_state(canonical))

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def violation(self, what, payload, expected=None, observed=None):
        self.violations.append(
            {"what": what, "payload": payload, "expected": jsonable(expected), "observed": jsonable(observed)}
        )

    def full(self):
        return len(self.violations) >= MAX_FOUND

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        self.violations.extend(o.violations)
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v


def hash_state(c):
    import hashlib

    return hashlib.blake2b(repr(c).encode(), digest_size=8).digest()


def jsonable(o, depth=0):
    if depth > 12:
        return repr(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(i, depth + 1) for i in o]
    if isinstance(o, (set, frozenset)):
        return sorted((jsonable(i, depth + 1) for i in o), key=repr)
    return repr(o)


def first_difference(a, b, path=""):
    """Human readable first difference of two canonical values."""
    if type(a) != type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return f"{path or '.'}: expected {a!r}, observed {b!r}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a:
                return f"{path}/{k}: not expected, observed {b[k]!r}"
            if k not in b:
                return f"{path}/{k}: expected {a[k]!r}, missing"
            if a[k] != b[k]:
                return first_difference(a[k], b[k], f"{path}/{k}")
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path or '.'}: expected {len(a)} elements, observed {len(b)}: expected {a!r}, observed {b!r}"[:900]
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}/{i}")
        return None
    return None if a == b else f"{path or '.'}: expected {a!r}, observed {b!r}"


# --------------------------------------------------------------------------------------------
_WORK = None


def _call(job):
    fn, args = job
    r = Result()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(r, *args)
    except Hang as e:
        r.violation("hang", {"job": repr(args)[:2000]}, observed=str(e))
    except Exception as e:  # what the implementation returned is of no kind the check can look at
        at = traceback.extract_tb(e.__traceback__)[-1]
        r.violation(f"a result that cannot be examined: {type(e).__name__}: {e} ({os.path.basename(at.filename)}:{at.lineno})"[:900], {"job": repr(args)[:2000]})
    return r


class Context:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.quick = tier == "quick"
        self.total = Result()
        self.notes = []
        self.assumptions = []
        self.exhaustive = True
        self.bounds = {}
        self.known = []  # (key, text) found again
        self.t0 = time.time()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def map(self, fn, jobs, chunk=1):
        """fn(result, *job) for every job, on all cores; results are merged."""
        jobs = list(jobs)
        work = [(fn, j if isinstance(j, tuple) else (j,)) for j in jobs]
        if len(work) <= 1 or WORKERS == 1:
            for w in work:
                self.total.merge(_call(w))
            return
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(WORKERS, len(work)), maxtasksperchild=None) as pool:
            for r in pool.imap_unordered(_call, work, chunksize=chunk):
                self.total.merge(r)
                if len(self.total.violations) >= 200:
                    self.exhaustive = False
                    self.notes.append("stopped early: too many violations")
                    pool.terminate()
                    break

    def batches(self, fn, items, size, *extra):
        items = list(items)
        self.map(fn, [(items[i : i + size],) + extra for i in range(0, len(items), size)])


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def write_evidence(ctx):
    t = ctx.total
    cov = {
        "states": len(t.states),
        "transitions": t.transitions,
        "traces_validated_against_impl": t.traces,
        "samples": t.samples[:6],
        "exhaustive": bool(ctx.exhaustive),
        "bounds": ctx.bounds,
        "outcomes": t.outcomes,
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(t.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", ctx.pid + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)
    return ev


def report(ctx):
    """Print the verdict, write replay files and evidence; -> exit code."""
    t = ctx.total
    # simplest first: short payloads are the easiest to read
    t.violations.sort(key=lambda v: len(json.dumps(jsonable(v["payload"]))))
    rdir = os.path.join(VERIF, "replays")
    code = 0
    for n, v in enumerate(t.violations[:MAX_REPORT]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{ctx.pid}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.pid, **{k: jsonable(x) for k, x in v.items()}}, f, indent=1)
        print(f"# {v['what']}")
        print(f"VIOLATION property={ctx.pid} replay={path}")
        code = 1
    if len(t.violations) > MAX_REPORT:
        print(f"# {len(t.violations)} violations in all, {MAX_REPORT} written")
    ev = write_evidence(ctx)
    c = ev["coverage"]
    print(
        f"{ctx.pid} {ctx.tier}: states={c['states']} transitions={c['transitions']} "
        f"traces={c['traces_validated_against_impl']} outcomes={c['outcomes']} wall={ev['wall_s']}s "
        f"violations={ev['violations']}"
    )
    return code
