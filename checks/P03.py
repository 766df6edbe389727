"""The result of a call depends on its arguments only."""

import copy
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
import threading

import calls
import mkpdf

PROPERTY = "P03"
LEVEL = "exploration"
RULE = (
    "histories of calls of the string, file, list and journal entry points with default and "
    "replaced knowledge bases (objects, files, missing and malformed ones); each call's result is "
    "compared with the result of the same call made first in a pristine process. Histories vary "
    "the order, repeat calls, let the caller modify the objects he passed and received, run calls "
    "in threads, and repeat in processes with other hash seeds, locales and directories. "
    "Non-trivial: a call preceded by, or concurrent with, a different one"
)
ASSUMPTIONS = [
    "knowledge base files are not modified between calls",
    "the calls of a caller share no object while running concurrently",
]
MEMO = {}


def setup():
    """The workers start from an import without any call.

    Compiling the regular expressions is most of the cost of a first call.  A
    child makes one, and says which were compiled; they are then compiled here,
    in a cache below the library, which the pristine children inherit.
    """
    real = re.compile

    def first_call():
        seen = []

        def spy(pattern, flags=0):
            seen.append((pattern, int(flags)))
            return real(pattern, flags)

        re.compile = spy
        calls.perform({"fn": "string", "mode": True, "text": "[1] A. Smith, Phys. Rev. 1, 2 (1999)",
                       "overrides": {"journals": [["PHYS REV", "Phys. Rev."]]}})
        return [x for x in seen if isinstance(x[0], str)]

    for pattern, flags in in_child(first_call):
        if isinstance(pattern, str):
            MEMO[pattern, flags] = real(pattern, flags)

    def memoised(pattern, flags=0):
        if isinstance(pattern, str) and (pattern, int(flags)) in MEMO:
            return MEMO[pattern, int(flags)]
        return real(pattern, flags)

    re.compile = memoised


def in_child(fn):
    """Run fn in a forked child of this (pristine) process, return its result."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ["error", "child-died"]


def baselines(specs):
    return [in_child(lambda s=s: calls.plain(calls.perform(s))) for s in specs]


def vandalise(r, result):
    """What a caller may do with a result he owns."""
    x = result[1]
    if isinstance(x, dict) and "extracted_references" in x:
        x = x["extracted_references"]
    if isinstance(x, dict):
        x.clear()
    elif isinstance(x, list):
        for ref in x:
            for v in ref.values():
                if isinstance(v, list):
                    v.append("vandal")
            ref["vandal"] = ["x"]
        x.clear()


def compare(obs, spec, got, expected, what, history):
    if got != expected:
        obs.fail(what, call=spec, got=got, expected=expected, history=history)
    obs.events += 1
    obs.saw("outcome:" + expected[0], "fn:" + spec["fn"])


def history(r, obs, i):
    scratch = tempfile.mkdtemp()
    specs = [calls.make(r, scratch) for _ in range(r.randint(4, 6))]
    expected = baselines(specs)
    order = [r.randrange(len(specs)) for _ in range(24)]
    destroy = r.random() < 0.7

    def run():
        out = []
        for k in order:
            over = copy.deepcopy(specs[k].get("overrides"))
            before = copy.deepcopy(over)
            res = calls.perform(specs[k], over)
            out.append((calls.plain(res), over == before))
            if destroy:
                vandalise(r, res)
        return out

    got = in_child(run)
    for n, (k, (res, untouched)) in enumerate(zip(order, got)):
        compare(obs, specs[k], res, expected[k], "depends-on-history", order[:n + 1])
        obs.check(untouched, "argument-modified", call=specs[k])
    obs.check(len(got) == len(order), "history-cut-short", got=len(got))
    for a, b in zip(order, order[1:]):
        if a != b:
            obs.input(specs[a], specs[b])
    obs.saw("history")


def modified_objects(r, obs, i):
    """The caller keeps one object and changes it between the calls."""
    scratch = tempfile.mkdtemp()
    steps = []
    kind = r.choice(["dict", "list", "nested"])
    for _ in range(6):
        kb = r.choice([calls.KB_A, calls.KB_B, calls.KB_C])
        spec = calls.make(r, scratch)
        while spec["fn"] == "list":
            spec = calls.make(r, scratch)
        spec["overrides"] = {"journals": {a: b for a, b in kb} if kind == "dict"
                             else [list(p) for p in kb]}
        steps.append(spec)
    expected = baselines(steps)

    def run():
        shared = {"journals": {} if kind == "dict" else []}
        out = []
        for spec in steps:
            j = spec["overrides"]["journals"]
            if kind == "dict":
                shared["journals"].clear()
                shared["journals"].update(j)
            elif kind == "list" or not shared["journals"]:
                shared["journals"][:] = copy.deepcopy(j)
            else:
                # change the pairs themselves
                while len(shared["journals"]) > len(j):
                    shared["journals"].pop()
                for n, pair in enumerate(j):
                    if n < len(shared["journals"]):
                        shared["journals"][n][:] = pair
                    else:
                        shared["journals"].append(list(pair))
            out.append(calls.plain(calls.perform(spec, shared)))
        return out

    got = in_child(run)
    for n, spec in enumerate(steps):
        compare(obs, spec, got[n], expected[n], "stale-argument", kind)
        obs.input(spec, n)
    obs.saw("modified:" + kind)


def threads(r, obs, i):
    scratch = tempfile.mkdtemp()
    n_threads = r.choice([2, 3, 4, 8])
    specs = [calls.make(r, scratch) for _ in range(n_threads)]
    expected = baselines(specs)
    rounds = 3
    switch = r.choice([1e-6, 1e-5, 1e-4, 5e-3])

    def run():
        sys.setswitchinterval(switch)
        out = [[None] * rounds for _ in specs]
        gate = threading.Barrier(n_threads)

        def worker(k):
            for n in range(rounds):
                gate.wait()
                out[k][n] = calls.plain(calls.perform(specs[k]))

        ts = [threading.Thread(target=worker, args=(k,), daemon=True) for k in range(n_threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

    got = in_child(run)
    for k, spec in enumerate(specs):
        for n in range(rounds):
            compare(obs, spec, got[k][n], expected[k], "depends-on-other-threads", n_threads)
    obs.input(specs)
    obs.saw("threads:%d" % n_threads, "switch:%g" % switch)


def processes(r, obs, i):
    """Other hash seeds, locales, directories; PDFs with several URLs."""
    scratch = tempfile.mkdtemp()
    specs = [calls.make(r, scratch) for _ in range(4)]
    for n in range(3):
        path = os.path.join(scratch, "doc-%d.pdf" % n)
        lines, dests, annots = [(72, 740, "References")], [], []
        for k in range(1, 5):
            y = 720 - 60 * k
            lines.append((72, y, "[%d] A. Author, Phys. Rev. D %d, 34 (1999)." % (k, k)))
            dests.append(("cite.Key%d:2000ab" % k, 0, 72, y + 10))
            for m in range(r.randint(0, 6)):
                annots.append((0, (100 + 40 * m, y - 20, 130 + 40 * m, y - 10),
                               "http://example.org/%d/%d" % (r.randrange(10**6), m)))
        with open(path, "wb") as f:
            f.write(mkpdf.make_pdf([lines], dests, annots))
        specs.append({"fn": "pdf", "path": path, "text": "", "overrides": {
            "journals": {"PHYS REV": "Phys. Rev."}}})
    results = []
    variants = [
        {"PYTHONHASHSEED": "0"},
        {"PYTHONHASHSEED": str(r.randrange(1, 2**32))},
        {"PYTHONHASHSEED": "random", "LC_ALL": "C", "LANG": "C"},
        {"PYTHONHASHSEED": "7", "TZ": "Asia/Tokyo", "LC_ALL": "POSIX", "cwd": "/"},
    ]
    for v in variants:
        env = dict(os.environ)
        cwd = v.get("cwd", scratch)
        env.update({k: x for k, x in v.items() if k != "cwd"})
        p = subprocess.run([sys.executable, calls.__file__], input=json.dumps(specs), text=True,
                           capture_output=True, env=env, cwd=cwd)
        if p.returncode:
            obs.fail("process-failed", variant=v, stderr=p.stderr[-800:])
        results.append(json.loads(p.stdout))
    for n, spec in enumerate(specs):
        for v, res in zip(variants[1:], results[1:]):
            if res[n] != results[0][n]:
                obs.fail("depends-on-environment", call=spec, variant=v, got=res[n],
                         expected=results[0][n])
            obs.events += 1
        obs.input(spec)
        if spec["fn"] == "pdf":
            obs.saw("urls:%d" % max(len(x.get("url", ())) for x in results[0][n][1]))
    obs.saw("processes:%d" % len(variants))


def repeat(r, obs, i):
    """The default knowledge bases, before and after replaced ones."""
    scratch = tempfile.mkdtemp()
    specs = [calls.make(r, scratch, default_kb=True), calls.make(r, scratch),
             calls.make(r, scratch, default_kb=True)]
    expected = baselines(specs)
    order = [0, 1, 2, 1, 0, 2]
    got = in_child(lambda: [calls.plain(calls.perform(specs[k])) for k in order])
    for k, res in zip(order, got):
        compare(obs, specs[k], res, expected[k], "depends-on-history", order)
    obs.input(specs)
    obs.saw("default-kb")


KINDS = {
    "repeat": (6, 60, repeat),
    "processes": (6, 60, processes),
    "history": (40, 800, history),
    "modified_objects": (32, 400, modified_objects),
    "threads": (40, 700, threads),
}
