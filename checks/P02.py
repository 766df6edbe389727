"""Every entry of a numbered bibliography comes back once, in order, verbatim."""

import re

import compose
import fuzz
import gen
from refextract import extract_references_from_string

PROPERTY = "P02"
LEVEL = "exploration"
RULE = (
    "bibliographies of 1 to 130 numbered entries in nine marker styles, wrapped at random widths "
    "with indentation, blank lines and hyphenation; non-trivial: at least two entries or at least "
    "two lines. The oracle is the list of entries the text was printed from, and the result of "
    "each entry on its own"
)
ASSUMPTIONS = [
    "markers start at 1, are consecutive and start a line (or follow the last of several lines of "
    "the entry before)",
    "an entry has at most 25 lines and does not mention the number of the next one",
]
KB = {"journals": gen.SMALL_KB}
SRC = None


def setup():
    global SRC
    SRC = fuzz.Source()
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)")


def layout(r, obs, entries, style):
    """-> text of the whole bibliography."""
    indent = r.choice(["", "", "    ", "\t", " "])
    hyphenate = r.random() < 0.3
    wrapping = r.random() < 0.8
    gap = r.choice([0, 0, 0, 1, 2])
    lead = r.choice([0, 0, 1])
    lines = [""] * lead
    run_in = style in ("[n]", "[n]tight") and r.random() < 0.25
    most = 1
    for e in entries:
        if wrapping:
            w = compose.wrap(r, e, *r.choice([(15, 40), (40, 90), (60, 120)]),
                             hyphenate=hyphenate, indent=indent, first=len(style) + 4)
            if len(w) > 25:
                w = [e]
            # a line which starts with a number could be read as a marker
            if any(re.match(r"\s*[\[({<]?\s*\d", x) for x in w[1:]):
                w = [e]
        else:
            w = [e]
        most = max(most, len(w))
        if run_in and lines and lines[-1] and "[" not in lines[-1] and r.random() < 0.5:
            # after the end of the entry before
            lines[-1] += " " + w[0]
            w = w[1:]
            obs.saw("marker inside a line")
        lines += w + [""] * gap
    if r.random() < 0.3:
        lines += [""]
    obs.saw("indent:%r" % indent, "gap:%d" % gap, "maxlines:%d" % min(most, 30))
    return compose.join(r, obs, lines), most


def check_segmentation(r, obs, bodies, alone=True):
    style = r.choice(list(compose.STYLES))
    entries = []
    for k, body in enumerate(bodies, 1):
        entries.append((compose.STYLES[style] % k) + body)
    text, most = layout(r, obs, entries, style)
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    got = []
    for ref in refs:
        item = (ref.get("linemarker"), ref["raw_ref"])
        if not got or got[-1] != item:
            got.append(item)
    expected = [([str(k)], [e]) for k, e in enumerate(entries, 1)]
    if got != expected:
        first = next((j for j, (a, b) in enumerate(zip(got, expected)) if a != b),
                     min(len(got), len(expected)))
        obs.fail("entries-not-recovered", style=style, entry=first + 1,
                 got=got[first:first + 2], expected=expected[first:first + 2],
                 text=text[:1500])
    obs.events += len(entries)
    obs.saw("style:" + style, "entries:%s" % (
        len(entries) if len(entries) < 10 else "10+" if len(entries) < 100 else "100+"))
    if len(entries) > 1 or most > 1:
        obs.input(text)
    if not alone:
        return
    # an entry says the same alone and among others, wrapped or not
    for k, e in enumerate(entries, 1):
        if len(entries) > 8 and r.random() > 8 / len(entries):
            continue
        mine = [x for x in refs if x.get("linemarker") == [str(k)]]
        single = obs.call(extract_references_from_string, e, override_kbs_files=KB)
        obs.equal(mine, single, "entry-depends-on-its-context", entry=e, text=text[:1500])
        obs.saw("compared-alone")


def body(r, k, last, rich=True):
    for _ in range(50):
        b = compose.text_of(compose.citation(r), end=r.choice([".", "", ".", " ."]))
        if r.random() < 0.2:
            b = gen.phrase(r, 5, 60) + ", " + b
        if not compose.mentions(b, k + 1) and not compose.mentions(b, 1):
            return b.strip()
    return "A. Smith, " + gen.phrase(r)


def small(r, obs, i):
    n = r.choice([1, 2, 3, 4, 5, 6, 9, 10, 11, 12])
    check_segmentation(r, obs, [body(r, k, n) for k in range(1, n + 1)])


def large(r, obs, i):
    n = r.choice([25, 40, 99, 100, 101, 120, 130])
    check_segmentation(r, obs, [
        body(r, k, n) if r.random() < 0.2 else "A. Smith, " + gen.phrase(r, 3, 12)
        for k in range(1, n + 1)])


def long_entries(r, obs, i):
    """Entries spread over up to 25 lines."""
    n = r.randint(1, 4)
    bodies = []
    for _ in range(n):
        m = r.choice([10, 24, 25, 25, 12])
        bodies.append(gen.author_group(r).text + ", " + gen.phrase(r, 6 * m, 8 * m))
    check_segmentation(r, obs, bodies)


def hostile(r, obs, i):
    """Entries made of arbitrary one-line text without numbers."""
    n = r.choice([2, 2, 3, 5])
    bodies = []
    while len(bodies) < n:
        b = " ".join(SRC.token(r) for _ in range(r.randint(1, 6)))
        b = re.sub(r"[\d\u0660-\u0669\u0966-\u096f]", "x", b)
        b = re.sub(r"\s+", " ", b, flags=re.U).strip()
        b = " ".join("".join(c for c in b if not c.isdigit()).split())
        if b and len(b) < 300 and not re.search(
            r"(?i)ref|bib|lit|cit|zit|erenc|[\[({<*]\s*$|^[\[({<\])}>.*-]|-$|\*|\[\s*\]|\[[a-z:+ -]*\]"
            r"|biblio|quell|source|note", b):
            bodies.append("x " + b)
    check_segmentation(r, obs, bodies, alone=False)


KINDS = {
    "large": (48, 600, large),
    "long_entries": (150, 2000, long_entries),
    "small": (380, 6000, small),
    "hostile": (400, 8000, hostile),
}
