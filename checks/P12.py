"""Bibliographies without numbers come back entry by entry as well."""

import os
import tempfile

import compose
import document
import gen
from refextract import extract_references_from_file, extract_references_from_string

PROPERTY = "P12"
LEVEL = "exploration"
RULE = (
    "bibliographies of 1 to 40 entries without numbers: with labels ([Smith99], [ABC+12], [W:1]), chapters and numbers ([2.1]), "
    "empty brackets or stars, separated by blank lines, or with indented continuation lines; as "
    "a bare list of references, as the end of a full text, and as a plain text file. The entries "
    "of the result are compared with the printed ones, and a sample of them with what the entry "
    "gives on its own. Non-trivial: at least two entries"
)
ASSUMPTIONS = [
    "entries separated by blank lines: at least four, and one of them has several lines",
    "entries told apart by indentation start with a capital letter or a quote and end in a full "
    "stop",
    "entries with labels contain no other word in square brackets",
]
KB = {"journals": gen.SMALL_KB}


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def label(r, seen):
    while True:
        t = r.choice([
            "%s%02d" % (r.choice(gen.SURNAMES), r.randint(0, 99)),
            "%s%02d" % (r.choice(["ABC", "WZ", "Hig", "Kl"]), r.randint(0, 99)),
            "%s+%02d" % (r.choice(["ABC", "WZ"]), r.randint(0, 99)),
            "%s:%d" % (r.choice(["W", "Zee"]), r.randint(1990, 2024)),
            "%s%02d%s" % (r.choice(["Smith", "Hig"]), r.randint(0, 99), r.choice("abc")),
            r.choice("ABCDEFGH") + str(r.randint(1, 999)),
            r.choice(gen.SURNAMES) + " %d" % r.randint(1950, 2024),
            r.choice(gen.SURNAMES),
            "Bar-Nir%d" % r.randint(1950, 2024),
        ])
        if t not in seen:
            seen.add(t)
            return t


def judge(r, obs, lines, expected, kind):
    bare = compose.join(r, obs, lines)
    full = "\n".join(document.prose(r, r.randint(1, 40)) + [r.choice(
        ["References", "REFERENCES", "Bibliography"])] + [bare])
    results = {"bare": obs.call(extract_references_from_string, bare, override_kbs_files=KB),
               "full text": obs.call(extract_references_from_string, full,
                                     is_only_references=False, override_kbs_files=KB)}
    if r.random() < 0.4:
        fd, path = tempfile.mkstemp(suffix=".txt")
        with os.fdopen(fd, "w", encoding="utf-8") as f:
            f.write(full + "\n")
        results["file"] = obs.call(extract_references_from_file, path, override_kbs_files=KB)
        os.remove(path)
    for how, refs in results.items():
        got = []
        for ref in refs:
            item = (ref.get("linemarker"), ref["raw_ref"])
            if not got or got[-1] != item:
                got.append(item)
        if got != expected:
            first = next((j for j, (a, b) in enumerate(zip(got, expected)) if a != b),
                         min(len(got), len(expected)))
            obs.fail("entries-not-recovered", how=how, kind=kind, entry=first + 1,
                     numbers=(len(got), len(expected)), got=got[first:first + 2],
                     expected=expected[first:first + 2], lines=lines[:60])
        obs.equal(refs, results["bare"], "depends-on-how-it-is-given", how=how, lines=lines[:60])
        obs.events += len(expected)
        obs.saw("given as " + how)
    for marker, raw in r.sample(expected, min(3, len(expected))):
        mine = [x for x in refs if (x.get("linemarker"), x["raw_ref"]) == (marker, raw)]
        alone = obs.call(extract_references_from_string, raw[0], override_kbs_files=KB)
        obs.equal(mine, alone, "entry-depends-on-its-context", entry=raw)
    if len(expected) > 1:
        obs.input(bare)
    obs.saw(kind, "entries:%d" % min(len(expected), 10))


def size(r, lo=1):
    return max(lo, r.choice([1, 2, 3, 4, 5, 8, 12, 25, 40]))


def unique(r, n, avoid):
    """Different entries which start with a capital letter or a quote."""
    out = []
    while len(out) < n:
        e = document.entry(r, 0, avoid)
        if e not in out and (e[0].isupper() or e[0] == '"'):
            out.append(e)
    return out


def labels(r, obs, i):
    seen, lines, expected = set(), [], []
    gap = r.choice([0, 0, 1])
    indent = r.choice(["", "", "   "])
    for e in unique(r, size(r), r"\["):
        m = label(r, seen)
        e = r.choice(["[%s] %s", "[%s] %s", "[ %s ] %s"]) % (m, e)
        expected.append(([m], [e]))
        lines += document.wrap(r, e, first=len(m) + 8, indent=indent) + [""] * gap
    judge(r, obs, lines, expected, "labels")


def stars(r, obs, i):
    mark = r.choice(["*", "[ ]", "[]"])
    lines, expected = [], []
    for e in unique(r, size(r), r"\[|\*"):
        e = mark + " " + e
        expected.append((["*"] if mark == "*" else None, [e]))
        lines += document.wrap(r, e, first=8)
    judge(r, obs, lines, expected, "mark:" + mark)


def sections(r, obs, i):
    """[1.1], [1.2], [2.1], as in the proceedings of a school or a book."""
    lines, expected = [], []
    gap = r.choice([0, 0, 1])
    style = r.choice(["[%d.%d]", "[%d.%d]", "[ %d.%d ]"])
    a = b = 1
    for e in unique(r, size(r), r"\["):
        e = style % (a, b) + " " + e
        expected.append((["%d.%d" % (a, b)], [e]))
        lines += document.wrap(r, e, first=10) + [""] * gap
        a, b = r.choice([(a, b + 1), (a, b + 1), (a, b + 1), (a + 1, 1), (a + 9, 1)])
    judge(r, obs, lines, expected, "sections")


def blank_lines(r, obs, i):
    gap = r.choice([1, 1, 2, 3])
    lines, expected = [], []
    space = r.choice(["", "", " ", "\t"])
    entries = unique(r, size(r, 4), None)
    several = False
    for e in entries:
        w = document.wrap(r, e, 20, 60, indent=r.choice(["", "", "  "]))
        if e is entries[-1] and not several and len(w) == 1:
            e = "A. Smith, concerning the masses of monopoles."
            w = ["A. Smith, concerning", "the masses of monopoles."]
        several = several or len(w) > 1
        expected.append((None, [e]))
        lines += w + [space] * (gap if e is not entries[-1] else r.choice([0, 1]))
    while lines[-1] == space:
        lines.pop()
    judge(r, obs, [""] * r.choice([0, 0, 1, 2]) + lines + [""] * r.choice([0, 1, 2, 3]), expected,
          "blank lines")


def indentation(r, obs, i):
    lines, expected = [], []
    indent = r.choice(["  ", "    ", "\t"])
    amp = r.random() < 0.4
    for e in unique(r, size(r), None):
        if amp:
            e = e.replace(", and ", " & ", 1) if ", and " in e else e.replace(" and ", " & ", 1)
        w = document.wrap(r, e, 30, 80, indent=indent)
        if r.random() < 0.3:
            # continuation lines which show it in another way
            for j in range(1, len(w)):
                if w[j - 1].rstrip()[-1] in ",&" or w[j].strip()[0].islower():
                    w[j] = w[j].strip()
                    obs.saw("continuation without indentation")
                    if w[j - 1].rstrip()[-1] == "&":
                        obs.saw("continuation after an ampersand")
        expected.append((None, [e]))
        lines += w
    judge(r, obs, lines, expected, "indentation")


KINDS = {
    "labels": (180, 2500, labels),
    "sections": (90, 1200, sections),
    "stars": (100, 1200, stars),
    "blank_lines": (180, 2500, blank_lines),
    "indentation": (180, 2500, indentation),
}
