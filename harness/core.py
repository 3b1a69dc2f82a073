"""Runtime-monitoring core: cases, monitors, verdicts, evidence.

A property module defines
    PROPERTY, LEVEL_RULE (text), ASSUMPTIONS (list), REQUIRED (event counters
    which must be non-zero, else the run is inconclusive) and
    SCENARIOS = [(name, function, quick_cases, thorough_cases), ...].
A scenario function runs ONE case against the real code with the random source
c.rng and reports what its monitors saw through c (check, close, event, sig).
"""
import collections
import hashlib
import json
import os
import re
import signal
import sys
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
FINDINGS = os.path.join(VERIF, "known_findings.txt")

CASE_CPU_SECONDS = 150      # CPU time (not wall clock) one case may use
MAX_VIOLATIONS = 12


class Reach:
    """Which lines of the library the workload reached: each reports once, then is free."""

    def __init__(self):
        self.lines = set()
        self.root = os.path.realpath(os.path.join(REPO, "celest")) + os.sep
        if not hasattr(sys, "monitoring"):
            return
        m = sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, "reach")
        m.register_callback(m.COVERAGE_ID, m.events.LINE, self.line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)

    def line(self, code, number):
        if code.co_filename.startswith(self.root) and code.co_name != "<module>":
            self.lines.add((code.co_filename[len(self.root):], number))
        return sys.monitoring.DISABLE

    def summary(self):
        return dict(collections.Counter(name for name, _ in sorted(self.lines)))


class CaseTimeout(BaseException):
    pass


class Watchdog(BaseException):
    pass


class Abort(Exception):
    """A monitor saw a violation after which the case cannot go on."""


def plain(x, depth=0):
    """JSON-able rendering of a witness."""
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {"shape": list(x.shape), "dtype": str(x.dtype),
                    "head": plain(x.ravel()[:12], depth + 1)}
        return plain(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Case:
    """One execution, with its monitors."""

    def __init__(self, run, scenario, index):
        self.run = run
        self.scenario = scenario
        self.index = index
        self.tier = run.tier
        self.rng = np.random.default_rng(
            [run.seed & 0xffffffff, int(hashlib.sha256(
                scenario.encode()).hexdigest()[:8], 16), index])
        self.context = {}

    # what was observed
    def event(self, name, n=1):
        self.run.events[name] += int(n)

    def state(self, name, *value):
        """Count distinct observed states of one kind."""
        self.run.states[name].add(repr(value))

    def sig(self, *parts):
        """Signature of a non-trivial case."""
        h = hashlib.sha256(repr((self.scenario,) + parts).encode()).hexdigest()
        self.run.signatures.add(h[:20])

    def note(self, **kw):
        """Inputs of this case, for replays and samples."""
        self.context.update(kw)

    # verdicts
    def fail(self, kind, /, **detail):
        self.run.violation(self, kind, detail)

    def check(self, ok, kind, /, **detail):
        self.run.evaluations += 1
        if not ok:
            self.run.violation(self, kind, detail)
        return bool(ok)

    def require(self, ok, kind, /, **detail):
        if not self.check(ok, kind, **detail):
            raise Abort(kind)

    def close(self, actual, expected, atol, kind, /, rtol=0.0, **detail):
        """Elementwise |actual-expected| <= atol + rtol*|expected|; shapes agree;
        NaN only where expected."""
        self.run.evaluations += 1
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.shape != e.shape:
            self.run.violation(self, kind + ":shape", dict(
                detail, actual_shape=a.shape, expected_shape=e.shape,
                actual=a, expected=e))
            return False
        try:
            a = a.astype(float)
        except (TypeError, ValueError):
            self.run.violation(self, kind + ":type", dict(detail, actual=repr(a)[:200]))
            return False
        e = e.astype(float)
        with np.errstate(invalid="ignore"):
            bad = ~((np.abs(a - e) <= atol + rtol * np.abs(e)) | (a == e) |
                    (np.isnan(a) & np.isnan(e)))
        self.event("values_compared", a.size)
        if np.any(bad):
            i = tuple(int(k) for k in np.argwhere(bad)[0]) if a.ndim else ()
            self.run.violation(self, kind, dict(
                detail, at=i, actual=a[i], expected=e[i],
                error=float(a[i]) - float(e[i]), tolerance=atol, rtol=rtol,
                wrong=int(bad.sum()), of=int(a.size)))
            return False
        return True

    def raises(self, exceptions, function, kind, /, **detail):
        self.run.evaluations += 1
        try:
            result = function()
        except exceptions as e:
            self.event("rejections_seen")
            return e
        except Exception as e:                       # another exception
            self.run.violation(self, kind + ":other_exception",
                               dict(detail, raised=repr(e)))
            return None
        self.run.violation(self, kind, dict(detail, returned=repr(result)[:200]))
        return None

    def finding(self, key, /, **detail):
        """A monitor saw exactly the deviation `key`: known, or a violation."""
        self.run.evaluations += 1
        if key in self.run.findings:
            self.run.seen_findings[key] += 1
        else:
            self.run.violation(self, "finding:" + key, detail)


class Run:
    def __init__(self, module, tier, seed):
        self.module = module
        self.prop = module.PROPERTY
        self.tier = tier
        self.seed = seed
        self.events = collections.Counter()
        self.states = collections.defaultdict(set)
        self.signatures = set()
        self.samples = []
        self.violations = []
        self.kinds = collections.Counter()
        self.evaluations = 0
        self.cases = collections.Counter()
        self.findings = load_findings(self.prop)
        self.seen_findings = collections.Counter()
        self.replaying = False
        self.tracebacks = []

    def violation(self, case, kind, detail):
        self.kinds[kind] += 1
        if self.kinds[kind] > 2 or len(self.violations) >= MAX_VIOLATIONS:
            return
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", kind)[:60]
        folder = os.path.join(EVIDENCE, "replays")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "%s-%s-%s-%d.json" % (
            self.prop, case.scenario, name, case.index))
        if not self.replaying:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier,
                           "seed": self.seed, "scenario": case.scenario,
                           "index": case.index, "kind": kind,
                           "case": plain(case.context), "witness": plain(detail),
                           "replay_with": "./check %s --replay %s" % (self.prop, path)},
                          f, indent=1)
        self.violations.append((kind, case.scenario, case.index, path, plain(detail)))

    def run_case(self, name, function, index):
        case = Case(self, name, index)
        self.cases[name] += 1
        before = len(self.signatures)

        def on_cpu(*_):
            raise CaseTimeout()
        signal.signal(signal.SIGVTALRM, on_cpu)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            function(case)
        except Abort:
            pass
        except CaseTimeout:
            case.fail("no_answer_within_%d_cpu_seconds" % CASE_CPU_SECONDS)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if f.filename.startswith(REPO.rstrip("/") + "/")]
            where = inside[-1] if inside else tb[-1]
            case.fail("unexpected_%s" % type(e).__name__, message=str(e)[:400],
                      where="%s:%s" % (where.filename, where.name),
                      trace=traceback.format_exc()[-2500:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if len(self.signatures) > before and len(self.samples) < 12 and \
                sum(s["scenario"] == name for s in self.samples) < 2:
            self.samples.append({"scenario": name, "index": index,
                                 "case": plain(case.context)})

    def run_all(self, only=None):
        for name, function, quick, thorough in self.module.SCENARIOS:
            history = getattr(self.module, "HISTORY", False)
            if only and name != only[0] and not history:
                continue
            n = quick if self.tier == "quick" else thorough
            if self.tier == "quick" and quick > 1:
                n *= getattr(self.module, "QUICK", 1)
            indices = range(n)
            if only and name == only[0]:
                # a violation may need what the process did before
                indices = range(only[1] + 1) if history else [only[1]]
            for index in indices:
                self.run_case(name, function, index)
                if len(self.violations) >= MAX_VIOLATIONS:
                    return
            if only and name == only[0]:
                return


def load_findings(prop):
    keys = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    keys[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return keys


def main(argv):
    import importlib
    prop = argv[1]
    tier = "quick"
    only = None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    replay = None
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            replay = json.load(f)
        tier, seed = replay["tier"], replay["seed"]
        only = (replay["scenario"], replay["index"])

    sys.path.insert(0, REPO)
    reach = Reach()
    import celest.satellite
    loaded = os.path.realpath(celest.satellite.__file__)
    if not loaded.startswith(os.path.realpath(REPO) + os.sep):
        print("INCONCLUSIVE: celest was loaded from %s, not %s" % (loaded, REPO))
        return 3

    module = importlib.import_module("p_" + prop.lower())
    run = Run(module, tier, seed)
    run.replaying = only is not None

    limit = 840 if tier == "quick" else 6 * 3600

    def on_wall(*_):
        raise Watchdog()
    signal.signal(signal.SIGALRM, on_wall)
    signal.alarm(limit)
    t0 = time.time()
    inconclusive = None
    try:
        run.run_all(only)
    except Watchdog:
        inconclusive = "wall-clock watchdog after %d s" % limit
    signal.alarm(0)
    wall = time.time() - t0

    if not only:
        missing = [e for e in getattr(module, "REQUIRED", []) if not run.events[e]]
        if missing and not run.violations:
            inconclusive = "monitors never reached: " + ", ".join(missing)
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": run.evaluations,
                "distinct_nontrivial": len(run.signatures),
                "rule": module.RULE,
                "samples": run.samples or [{"none": True}],
                "cases": dict(run.cases),
                "events": dict(run.events),
                "distinct_states": {k: len(v) for k, v in run.states.items()},
                "known_findings_seen": dict(run.seen_findings),
                "library_lines_reached": reach.summary(),
            },
            "assumptions": module.ASSUMPTIONS,
            "wall_s": round(wall, 3),
            "violations": len(run.violations),
        }
        if inconclusive:
            evidence["coverage"]["inconclusive"] = inconclusive
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)

    for key, n in sorted(run.seen_findings.items()):
        print("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (
            prop, key, run.findings[key], n))
    for kind, scenario, index, path, detail in run.violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s in %s[%d]: %s" % (kind, scenario, index, json.dumps(detail)[:1200]))
    if run.violations:
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s %s" % (prop, inconclusive))
        return 3
    print("HELD property=%s tier=%s seed=%d: %d evaluations in %d cases, %d distinct "
          "non-trivial, events %s, %.1f s" % (
              prop, tier, seed, run.evaluations, sum(run.cases.values()),
              len(run.signatures), dict(run.events), wall))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    import core as _core          # one module object, shared with the properties
    code = _core.main(sys.argv)
    sys.stdout.flush()
    os._exit(code)
