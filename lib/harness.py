"""Common machinery of the checks.

A check module declares KINDS: name -> (quick_n, thorough_n, function).  The
function is called once per case with a random generator which only depends on
(property, seed, kind, index) and with an Obs, through which it

  * calls the real library (obs.call: anything raised is a violation),
  * states what it watched (obs.check / obs.fail: the oracle),
  * records what was actually observed (obs.saw: feature counters,
    obs.input: distinct inputs).

Cases are distributed over forked workers, so that the knowledge bases are only
loaded once.  The number of cases is fixed: no verdict depends on the clock.  A
case which uses CPU for several hundred times its usual cost is reported as one
which gives no answer.
"""

import collections
import concurrent.futures
import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
CPU_LIMIT = 60  # seconds of CPU for one case (usual: 0.01 to 3)
MAX_REPORTED = 5
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX_VIOLATIONS", "40"))


class Violation(Exception):
    def __init__(self, key, detail):
        super().__init__(key)
        self.key, self.detail = key, detail


class NoAnswer(BaseException):
    pass


def _on_cpu_limit(signum, frame):
    raise NoAnswer()


class Obs:
    """What one case observes."""

    def __init__(self):
        self.features = collections.Counter()
        self.inputs = []
        self.events = 0
        self.sample = None
        self.context = None

    def call(self, fn, *args, **kwargs):
        """Call the library; it must not raise."""
        self.events += 1
        try:
            return fn(*args, **kwargs)
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            raise Violation(
                "raised-" + type(exc).__name__,
                {
                    "call": getattr(fn, "__name__", str(fn)),
                    "args": short(args),
                    "exception": repr(exc)[:300],
                    "where": [f"{f.name}:{f.line}" for f in tb[-3:]],
                },
            ) from exc

    def input(self, *what):
        """A non-trivial input, as the check's rule defines it."""
        text = json.dumps(what, default=str, ensure_ascii=True)
        self.inputs.append(hashlib.blake2b(text.encode(), digest_size=8).digest())
        if self.sample is None:
            self.sample = text[:700]

    def saw(self, *features):
        for f in features:
            self.features[f] += 1

    def check(self, condition, key, /, **detail):
        self.events += 1
        if not condition:
            raise Violation(key, detail)

    def fail(self, key, /, **detail):
        raise Violation(key, detail)

    def equal(self, got, expected, key, /, **detail):
        self.events += 1
        if got != expected:
            raise Violation(key, dict(detail, got=got, expected=expected))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def rng(prop, seed, kind, i):
    return random.Random(f"{prop}:{seed}:{kind}:{i}")


MODULE = None
SEED = 1
KNOWN = {}


def run_case(kind, i):
    """-> (obs, violation or None)"""
    obs = Obs()
    fn = MODULE.KINDS[kind][2]
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, getattr(MODULE, "CPU_LIMIT", CPU_LIMIT))
    try:
        fn(rng(MODULE.PROPERTY, SEED, kind, i), obs, i)
        return obs, None
    except Violation as v:
        return obs, (v.key, v.detail)
    except NoAnswer:
        return obs, ("no-answer", {"cpu_s": getattr(MODULE, "CPU_LIMIT", CPU_LIMIT)})
    except Exception:
        # the result was not even of the shape the oracle reads
        return obs, ("unreadable-result", {"traceback": traceback.format_exc()[-1500:]})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_chunk(kind, start, stop):
    features = collections.Counter()
    digests = set()
    events = 0
    sample = None
    violations = []
    new = 0
    for i in range(start, stop):
        obs, violation = run_case(kind, i)
        features.update(obs.features)
        digests.update(obs.inputs)
        events += obs.events
        if sample is None:
            sample = obs.sample
        if violation:
            violations.append((kind, i, violation[0], violation[1]))
            new += violation[0] not in KNOWN
            if new >= 3 or violation[0] == "no-answer":
                break
    return {
        "kind": kind,
        "n": i - start + 1,
        "features": features,
        "digests": digests,
        "events": events,
        "sample": sample,
        "violations": violations,
    }


def load_findings(prop):
    known = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding="utf-8") as f:
            for line in f:
                # finding: property=P01 key=<key> <what>
                parts = line.strip().split(None, 3)
                if len(parts) == 4 and parts[0] == "finding:":
                    if parts[1] == "property=" + prop:
                        known[parts[2].removeprefix("key=")] = parts[3]
    return known


def jobs():
    return max(1, min(8, len(os.sched_getaffinity(0))))


def main(module, tier, seed, replay=None):
    global MODULE, SEED
    MODULE, SEED = module, seed
    prop = module.PROPERTY
    started = time.time()
    logging.disable(logging.CRITICAL)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        return _main(module, tier, seed, replay, prop, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(module, tier, seed, replay, prop, started):
    global SEED, KNOWN
    KNOWN = known = load_findings(prop)
    if hasattr(module, "setup"):
        module.setup()
    if replay:
        with open(replay, encoding="utf-8") as f:
            spec = json.load(f)
        SEED = spec["seed"]
        obs, violation = run_case(spec["kind"], spec["index"])
        print(json.dumps({"violation": violation}, indent=1, default=short))
        return 1 if violation else 0

    chunks = []
    only = os.environ.get("VERIF_ONLY_KIND")
    for kind, (quick_n, thorough_n, _fn) in module.KINDS.items():
        if only and kind not in only.split(","):
            continue
        n = thorough_n if tier == "thorough" else quick_n
        if callable(n):
            n = n(seed)
        # for experiments only: a part of the cases
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
        size = max(1, min(25, -(-n // (jobs() * 6))))
        chunks += [(kind, a, min(n, a + size)) for a in range(0, n, size)]
    # long kinds first
    features = collections.Counter()
    digests = set()
    events = evaluations = 0
    per_kind = collections.Counter()
    samples = {}
    violations = []
    broken = None
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    sys.stderr.flush()
    with concurrent.futures.ProcessPoolExecutor(jobs(), mp_context=ctx) as pool:
        todo = [pool.submit(run_chunk, *c) for c in chunks]
        try:
            for future in concurrent.futures.as_completed(todo):
                res = future.result()
                features.update(res["features"])
                digests |= res["digests"]
                events += res["events"]
                evaluations += res["n"]
                per_kind[res["kind"]] += res["n"]
                if res["sample"]:
                    samples.setdefault(res["kind"], []).append(res["sample"])
                violations += res["violations"]
                hung = sum(v[2] == "no-answer" for v in violations)
                news = sum(v[2] not in known for v in violations)
                if news >= MAX_VIOLATIONS or hung >= 3:
                    for f in todo:
                        f.cancel()
                    break
        except concurrent.futures.process.BrokenProcessPool:
            broken = True
        except concurrent.futures.CancelledError:
            pass
    if broken:
        violations.append(("-", 0, "worker-died", {"what": "the process was ended"}))

    violations.sort(key=lambda v: (v[0], v[1]))
    hit = {v[2] for v in violations if v[2] in known}
    for key in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    new = [v for v in violations if v[2] not in known]
    seen = set()
    reported = []
    for v in new:
        if v[2] not in seen or len(reported) < MAX_REPORTED:
            seen.add(v[2])
            reported.append(v)
        if len(reported) >= 2 * MAX_REPORTED:
            break
    for n, (kind, i, key, detail) in enumerate(reported):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-{kind}-{i}.json")
        spec = {"property": prop, "seed": seed, "kind": kind, "index": i,
                "key": key, "detail": detail}
        with open(path, "w", encoding="utf-8") as f:
            json.dump(spec, f, indent=1, default=short)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {kind}[{i}] {key}: {short(detail, 900)}")

    wall = time.time() - started
    sample_list = [{"kind": k, "case": s} for k in sorted(samples)
                   for s in sorted(samples[k])[:2]]
    usage = resource.getrusage(resource.RUSAGE_CHILDREN)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(digests),
            "rule": module.RULE,
            "samples": sample_list[:16],
            "cases_per_kind": dict(sorted(per_kind.items())),
            "monitor_events": events,
            "observed": {str(k): v for k, v in sorted(
                features.items(), key=lambda kv: str(kv[0]))},
            "distinct_observed_features": len(features),
            "cpu_s": round(usage.ru_utime + usage.ru_stime, 1),
        },
        "wall_s": round(wall, 2),
        "violations": len(new),
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, default=short)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))
    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {len(digests)} distinct, "
          f"{events} monitor events, {len(features)} features, "
          f"{len(new)} violations, {wall:.1f}s")
    if not new and not digests:
        # nothing was observed: that is not a pass
        print(f"VIOLATION property={prop} replay=none (the monitors observed nothing)")
        return 1
    return 1 if new else 0


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()):
        yield
