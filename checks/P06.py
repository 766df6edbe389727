"""arXiv identifiers and report numbers come back in their standard form."""

import json
import os
import re

import gen
from refextract import extract_references_from_string

PROPERTY = "P06"
LEVEL = "exploration"
RULE = (
    "entries with one to four arXiv identifiers (new and old style, with and without prefix, "
    "version, category, brackets) and laboratory report numbers, among authors, titles, journals, "
    "DOIs and text; and a sweep over all the categories and numbering schemes of the report "
    "number knowledge base (printed with hyphens, slashes and spaces, in brackets). The report "
    "numbers of the result, in order, are compared with the printed ones. Non-trivial: every case"
)
ASSUMPTIONS = [
    "the separators inside the number of a laboratory report are compared loosely in the sweep "
    "(hyphens are added by the library on purpose)",
    "old-style identifiers are printed with an archive name of the time",
]
KB = {"journals": gen.SMALL_KB}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUMBERS = []
# archives which existed, except those the library only knows from its report
# number knowledge base
ARCHIVES = ["astro-ph", "cond-mat", "gr-qc", "hep-ex", "hep-lat", "hep-ph", "hep-th", "math-ph",
            "nucl-ex", "nucl-th", "quant-ph", "alg-geom", "dg-ga", "q-alg", "solv-int", "chao-dyn",
            "physics", "math", "cs", "nlin", "chem-ph", "atom-ph", "funct-an", "math.AG", "math.QA",
            "cs.AI", "astro-ph.CO", "acc-ph", "patt-sol"]
TYPOS = {"hepth": "hep-th", "hepph": "hep-ph", "hepex": "hep-ex", "ep-th": "hep-th",
         "ep-ph": "hep-ph", "ep-ex": "hep-ex", "stro-ph": "astro-ph", "quantph": "quant-ph",
         "nuc-th": "nucl-th", "astr-ph": "astro-ph", "math-ag": "math.ag", "quan-ph": "quant-ph",
         "hhep-ph": "hep-ph", "nuclth": "nucl-th", "aastro-ph": "astro-ph", "hep-lt": "hep-lat"}


def parse(path):
    """The knowledge base -> [category, standard category, number patterns]."""
    out, cats, pats = [], [], []

    def flush():
        out.extend([c, s, list(pats)] for c, s in cats)

    with open(path, encoding="utf-8") as f:
        for line in f:
            line = line.rstrip("\n")
            if re.match(r"\*{5}.+\*{5}$", line):
                flush()
                cats, pats = [], []
            elif line.startswith("<"):
                pats.append(line.strip()[1:-1])
            elif "---" in line and not line.startswith("#"):
                a, b = line.split("---", 1)
                cats.append((a.strip(), b.strip()))
    flush()
    return out


def setup():
    import refextract

    with open(os.path.join(HERE, "data", "report_numbers.json"), encoding="utf-8") as f:
        base = json.load(f)
    path = os.path.join(os.path.dirname(refextract.__file__), "references", "kbs",
                        "report-numbers.kb")
    if os.path.exists(path):
        base += [x for x in parse(path) if x not in base]
    last = {}
    for c, s, pats in base:
        last[c] = (s, pats)  # of two institutes with the same category, the last counts
    for c, (s, pats) in last.items():
        NUMBERS.extend((c, s, p) for p in pats)
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def instance(r, p):
    """A number printed after a pattern -> text."""
    ext = re.findall(r"\(\?:( [^)]*)\)\??", p)
    needed = re.search(r"\(\?:[^)]*\)(?!\?)", p)
    core = re.sub(r"\(\?:[^)]*\)\??|\\b", "", p)
    core = core.replace("yyyy", "Y").replace("yy", "y").replace("mm", "m")
    core = re.sub(r"\[([A-Z]+)\]", lambda m: r.choice(m.group(1)), core)
    sep = r.choice(["-", "-", "-", " ", "/", "--"])
    out = ""
    i = 0
    while i < len(core):
        c = core[i]
        if core[i + 1:i + 2] == "?":
            i += 1
            if r.random() < 0.4:
                i += 1
                continue
        if c == "s":
            out += sep
        elif c == "9":
            out += r.choice("123456789")
        elif c == "Y":
            out += str(r.randint(1980, 2024))
        elif c == "y":
            out += "%02d" % r.randint(60, 99)
        elif c == "m":
            out += "%02d" % r.randint(1, 12)
        elif c == "a":
            out += r.choice("ABCDEF")
        elif c == " ":
            out += "-"
        else:
            out += c
        i += 1
    if ext and (needed or r.random() < 0.5):
        e = r.choice(r.choice(ext).split("|"))
        e = re.sub(r"(.)\?", lambda m: m.group(1) if r.random() < 0.5 else "", e)
        out += e.replace(" ", "-")
    return out


def squash(x):
    return re.sub(r"[^A-Za-z0-9]", "", x).upper()


def numbers(refs):
    return [v for ref in refs for v in ref.get("reportnumber", [])]


def sweep(r, obs, i):
    c, s, p = NUMBERS[i % len(NUMBERS)]
    number = instance(r, p)
    while s == "ATLAS-CONF" and re.match(r"\W?200", number):
        number = instance(r, p)  # those are called ATL-CONF
    text = c.replace(" ", r.choice("--- ")) + number
    if r.random() < 0.25 and text.isascii():
        text = text.lower() if "DESY" in text else text.title() if r.random() < 0.3 else text
    shown = r.choice(["%s", "%s", "%s", "[%s]", "(%s)"]) % text
    ends = [".", ", topological defects.", "; Phys. Rev. D 12, 34 (1999)."]
    if len(re.sub(r"\D", "", number)) > 2:
        ends.append(", 1999.")  # shorter numbers: see fermilab_suffix
    line = "[1] " + r.choice(["A. Smith, ", "", "see remarks, "]) + shown + r.choice(ends)
    refs = obs.call(extract_references_from_string, line, override_kbs_files=KB)
    got = numbers(refs)
    obs.check([squash(x) for x in got] == [squash(s + number)], "report-number", line=line,
              got=got, expected=s + " + " + number)
    obs.check(" " not in got[0] and "--" not in got[0], "report-number-form", line=line, got=got)
    if re.fullmatch(r"[A-Z-]+", s) and re.fullmatch(r"[\d -]+", number):
        # a hyphen after the category, even if it is missing in print
        obs.check(re.match(re.escape(s.rstrip("-")) + r"-\d", got[0]), "report-number-hyphen",
                  line=line, got=got)
        obs.saw("hyphen after the category, printed: %s" % (not number[0].isdigit()))
    obs.input(line)
    obs.saw("category:" + s)


def old_arxiv(r):
    yy = r.choice(list(range(91, 100)) + list(range(0, 8)))
    return "%02d%02d%03d" % (yy, r.randint(1, 12), r.randint(1, 999))


def archive(r):
    """An old-style identifier: all archives, misspellings, letter cases."""
    num = old_arxiv(r)
    if r.random() < 0.25:
        name = r.choice(sorted(TYPOS))
        want = TYPOS[name] + "/" + num
    else:
        name = r.choice(ARCHIVES)
        if name == "patt-sol":
            return gen.El("ARXIV", "patt-sol/" + num, {"reportnumber": "patt-sol-" + num}, ("kb",))
        want = name + "/" + num
        if r.random() < 0.1:
            name = want = name.upper()
            want += "/" + num
    text = name + r.choice(["/", "/", "/", "-", ":", " ", ""]) + num + r.choice(
        ["", "", "", "v1", "v23", "V2", "v999"])
    text = r.choice(["%s", "%s", "[%s]", "(%s)"]) % text
    return gen.El("ARXIV", text, {"reportnumber": want}, (name,))


def modern(r):
    """A new-style identifier: the first and last numbers of the scheme, spacing, versions."""
    five = r.random() < 0.5
    yy = r.randint(15, 25) if five else r.randint(7, 14)
    mm = r.choice([1, 12, r.randint(4, 9), r.randint(1, 12)])
    n = r.choice([1, 9999, r.randint(1, 9999)])
    num = "%02d%02d.%s" % (yy, mm, ("%05d" % r.choice([n, 99999, r.randint(1, 99999)])) if five
                           else "%04d" % n)
    cat = r.choice(["", "", "hep-ph", "astro-ph.CO", "physics.ins-det", "quant-ph", "math.AG"])
    ver = r.choice(["", "", "v1", "v9", "v10", "v123", "v999", "V3", " v2"])
    pre = r.choice(["arXiv:", "arXiv:", "arXiv: ", "arXiv ", "ARXIV:", "arxiv:", "", ""])
    text = pre + num + ver + (r.choice([" [%s]", " [%s]", "[%s]"]) % cat if cat else "")
    if r.random() < 0.3:
        text = r.choice(["[%s]", "(%s)"]) % text
    want = "arXiv:" + num + (" [%s]" % cat if cat else "")
    return gen.El("ARXIV", text, {"reportnumber": want}, ("new", five, bool(cat), ver, pre))


def other(r):
    """Laboratory reports in brackets, with years of two digits, slashes and dots."""
    y = r.randint(80, 99)
    n = r.randint(1, 399)
    text, want = r.choice([
        ("[CERN-TH-%02d-%03d]" % (y, n), "CERN-TH-%02d-%03d" % (y, n)),
        ("ATL-CONF-99-%03d" % n, "ATL-CONF-99-%03d" % n),
        ("CERN-TH.%d/%02d" % (1000 + n, y), "CERN-TH-%d-%02d" % (1000 + n, y)),
        ("CERN-TH.%d-%02d" % (1000 + n, y), "CERN-TH-%d-%02d" % (1000 + n, y)),
        ("DESY %02d-%03d" % (y, n), "DESY-%02d-%03d" % (y, n)),
        ("DESY-19%02d-%03d" % (y, n), "DESY-19%02d-%03d" % (y, n)),
        ("(SLAC-PUB-%d)" % (6000 + n), "SLAC-PUB-%d" % (6000 + n)),
        ("SLAC-PUB %d" % (6000 + n), "SLAC-PUB-%d" % (6000 + n)),
    ])
    return gen.El("REPORTNUMBER", text, {"reportnumber": want}, (text[:6],))


def link(r):
    num = "%02d%02d.%04d" % (r.randint(7, 14), r.randint(1, 12), r.randint(1, 9999))
    if r.random() < 0.4:
        num = r.choice(["hep-th", "astro-ph", "gr-qc"]) + "/" + old_arxiv(r)
    return gen.El("ARXIV", "http://arxiv.org/abs/" + num, {"reportnumber": "arXiv:" + num},
                  ("link",))


def entry(r, obs, i):
    els = []
    n = r.choice([1, 1, 2, 3, 4])
    makers = [gen.arxiv, gen.arxiv, gen.report, other, archive, modern, modern, link]
    if n > 1 and r.random() < 0.3:
        makers = [r.choice(makers)]  # several of the same laboratory or archive
        obs.saw("several of one kind")
    while len(els) < n:
        e = r.choice(makers)(r)
        if len(makers) > 1 or not els or e.feat[:1] == els[0].feat[:1]:
            els.append(e)
    others = []
    for f, p in ((gen.author_group, 0.6), (gen.quoted, 0.4), (gen.journal, 0.5), (gen.doi, 0.3),
                 (gen.url, 0.15), (gen.isbn, 0.15)):
        if r.random() < p:
            others.append(f(r))
    if r.random() < 0.5:
        others.append(gen.El("MISC", gen.phrase(r), {}))
    pos = sorted(r.randrange(n + 1) for _ in others)
    for p, o in reversed(list(zip(pos, others))):
        els.insert(p, o)
    for a, b in zip(els, els[1:]):
        if a.feat[:1] == ("fermilab",) and b.kind == "AUTH":
            # initials after a Fermilab report: see fermilab_suffix
            a.text, a.fields = "CERN-TH-99-123", {"reportnumber": "CERN-TH-99-123"}
    text = "[1] "
    for k, e in enumerate(els):
        text += e.text
        if k < len(els) - 1:
            text += r.choice([", ", ", ", ", ", "; "])
    text += r.choice([".", "", ";", ","])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    want = [e.fields["reportnumber"] for e in els if "reportnumber" in e.fields]
    obs.equal(numbers(refs), want, "report-numbers", text=text, refs=refs)
    obs.input(text)
    for e in els:
        if "reportnumber" in e.fields:
            obs.saw("%s:%s" % (e.kind, e.feat[0] if e.feat else ""))


def fermilab_suffix(r, obs, i):
    """The author after a Fermilab report number is not part of it."""
    number = "FERMILAB-Pub-%02d-%03d" % (r.randint(80, 99), r.randint(1, 399))
    initial = r.choice("AETBCDFGHIJKLMNOPQRSUVWXYZ")
    text = "[1] %s%s %s. %s, Phys. Rev. D 12, 34 (1999)." % (
        number, r.choice(";,"), initial, r.choice(gen.SURNAMES))
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    key = "initial-in-fermilab-number" if initial in "AET" else "report-number"
    if r.random() < 0.3:
        number = "FERMILAB-TM-%02d" % r.randint(10, 99)
        text = "[1] A. Smith, %s, %d." % (number, gen.year(r))
        key = "year-in-fermilab-number"
        refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    obs.equal(numbers(refs), [number], key, text=text)
    obs.input(text)
    obs.saw("initial:" + initial)


KINDS = {
    "fermilab_suffix": (60, 300, fermilab_suffix),
    "sweep": (3000, 40000, sweep),
    "entry": (5000, 60000, entry),
}
