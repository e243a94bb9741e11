"""Harness shared by the checks: tiers, workers, evidence, replays, known findings."""
import collections
import json
import multiprocessing
import os
import resource
import shlex
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPUS = int(os.environ.get("VERIF_JOBS", "0")) or multiprocessing.cpu_count()
MAX_REPORTED = 12
WORKER_MEMORY = 4 << 30


class Hang(BaseException):
    """Raised by the watchdog; not an Exception so that code under test cannot swallow it."""


class Violation(object):
    def __init__(self, key, what, replay):
        self.key, self.what, self.replay = key, what, replay


class Result(object):
    """What a worker (or the whole run) measured."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.violations = []
        self.samples = []
        self.extra = collections.Counter()

    def violation(self, key, what, **replay):
        self.violations.append(Violation(key, what, replay))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def merge(self, other):
        self.states += other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.outcomes += other.outcomes
        self.extra += other.extra
        self.violations += other.violations
        self.samples += other.samples


class Watchdog(object):
    """with Watchdog(seconds): raises Hang when the body runs too long."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def fire(*_):
            raise Hang("no answer within %s s" % self.seconds)
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


_JOB = None


def _run_task(i):
    func, args = _JOB
    try:
        return i, func(args[i]), None
    except Exception as e:
        return i, crash(e), traceback.format_exc()


def crash(error):
    """A Result when the exception came out of the code under test, else None."""
    frames = [f.filename for f in traceback.extract_tb(error.__traceback__)]
    if not frames or not os.path.abspath(frames[-1]).startswith(os.path.abspath(REPO) + os.sep):
        return None
    res = Result()
    res.violation("crash:%s" % type(error).__name__, "the code under test raised %s: %s" % (type(error).__name__, error),
                  traceback=traceback.format_exc())
    return res


def _init_worker():
    # the soft limit only, so that sanitized child processes can lift it again
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def unlimited():
    """preexec_fn for children that reserve huge address ranges (sanitizers)."""
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)


class CheckError(Exception):
    pass


def parallel(func, args, seed=0):
    """Run func over args in forked workers, merging the Results; the seed only rotates the order."""
    global _JOB
    args = list(args)
    total = Result()
    if not args:
        return total
    order = list(range(len(args)))
    k = seed % len(order)
    order = order[k:] + order[:k]
    _JOB = (func, args)
    results = {}
    pool = multiprocessing.get_context("fork").Pool(min(CPUS, len(args)), _init_worker, maxtasksperchild=8)
    try:
        for i, res, err in pool.imap_unordered(_run_task, order):
            if err and not res:
                raise CheckError(err)
            results[i] = res
    finally:
        pool.terminate()
        pool.join()
    for i in range(len(args)):
        total.merge(results[i])
    return total


def chunks(items, size):
    items = list(items)
    return [items[i:i + size] for i in range(0, len(items), size)]


class Scratch(object):
    """A scratch directory that is removed at the end."""

    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.path = tempfile.mkdtemp(prefix="verif-", dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def known_findings(prop):
    """Keys of the violations that the committed file lists as known for this property."""
    keys = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            prefix = "known: property=%s key=" % prop
            if line.startswith(prefix):
                key, _, what = line[len(prefix):].partition(" | ")
                keys[key.strip()] = what.strip()
    return keys


class Context(object):
    def __init__(self, prop, tier, seed, only):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.thorough = tier == "thorough"

    def pick(self, cases):
        """Restrict to one case when replaying."""
        cases = list(cases)
        if self.only:
            cases = [c for c in cases if c.name == self.only]
        return cases


def run(prop, func, level="model_checking", assumptions=()):
    """Entry point of a check. func(ctx) returns a Result."""
    only = None
    argv = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    while argv:
        a = argv.pop(0)
        if a == "--only":
            only = argv.pop(0)
        elif a == "--tier":
            tier = argv.pop(0)
        elif a == prop:
            pass
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    start = time.time()
    ctx = Context(prop, tier, seed, only)
    try:
        res = func(ctx)
    except CheckError as e:
        sys.stderr.write(str(e))
        print("check error: property=%s" % prop)
        return 2
    except Exception as e:
        traceback.print_exc()
        res = crash(e)
        if not res:
            print("check error: property=%s" % prop)
            return 2
    wall = time.time() - start
    known = known_findings(prop)
    hits, fresh = collections.OrderedDict(), []
    for v in res.violations:
        if v.key in known:
            hits.setdefault(v.key, v)
        else:
            fresh.append(v)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(wall, 2),
        "coverage": {
            "states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
            "samples": res.samples[:6], "exhaustive": True,
            "distinct_outcomes": len(res.outcomes), "outcomes": dict(res.outcomes.most_common(40)),
            "counters": dict(res.extra)},
        "assumptions": list(assumptions), "violations": len(fresh)}
    if hits:
        evidence["coverage"]["known_findings_seen"] = sorted(hits)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    for key in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key] or hits[key].what))
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d wall=%.1fs" % (
        prop, tier, res.states, res.transitions, res.traces, len(res.outcomes), len(fresh), len(hits), wall))
    if not only and res.traces == 0 and not fresh:
        print("check error: property=%s nothing was explored" % prop)
        return 2
    if not fresh:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    for n, v in enumerate(fresh):
        if len(seen) >= MAX_REPORTED:
            break
        if v.key in seen:
            continue
        seen.add(v.key)
        path = os.path.join(VERIF, "replays", "%s-%02d.json" % (prop, len(seen)))
        data = {"property": prop, "key": v.key, "what": v.what}
        data.update(v.replay)
        if "case" in v.replay:
            data["rerun"] = "./check %s --tier %s --only %s" % (prop, tier, shlex.quote(v.replay["case"]))
        with open(path, "w") as f:
            json.dump(data, f, indent=1, sort_keys=True, default=repr)
            f.write("\n")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("    %s: %s" % (v.key, v.what.replace("\n", "\n      ")[:1500]))
    if len(fresh) > len(seen):
        print("    (%d violating points in total)" % len(fresh))
    return 1
