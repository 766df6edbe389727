"""A journal citation comes back with its title, volume, year and page."""

import gzip
import os
import re

import gen
from refextract import extract_journal_reference, extract_references_from_string

PROPERTY = "P07"
LEVEL = "exploration"
RULE = (
    "entries with one to four journal citations in seventeen layouts (title spellings, series "
    "letters, roman volumes, issues, page ranges and letters, article numbers), special journals "
    "whose volume needs the year, proceedings of science, and 'ibid.' after them, among authors, "
    "titles, identifiers and text; and a sweep over all the titles of the default journal "
    "knowledge base. Title, volume, year and page of the result, in order, are compared with "
    "what was printed. Non-trivial: every case"
)
ASSUMPTIONS = [
    "volume and page are not in the range of years",
    "titles of the default knowledge base are printed as in the knowledge base",
]
KB = {"journals": gen.SMALL_KB}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = []
FIELDS = ("journal_title", "journal_volume", "journal_year", "journal_page")
# phrases of the default knowledge base which collide with something else in a
# line: accents and hyphens (never in the simplified line), a first name which
# is also matched by a regular expression, endings which start a report number
ODD = re.compile(r"[^A-Z0-9 .]|CERN$|^DANS?$|^DAN ")


def parse(lines):
    out = {}
    for line in lines:
        if "---" in line and not line.startswith("#"):
            a, b = line.rstrip("\n").split("---", 1)
            out[a.strip()] = b.strip()
    return out


def setup():
    import refextract

    with gzip.open(os.path.join(HERE, "data", "journal_titles.kb.gz"), "rt", encoding="utf-8") as f:
        kept = parse(f)
    path = os.path.join(os.path.dirname(refextract.__file__), "references", "kbs",
                        "journal-titles.kb")
    now = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            now = parse(f)
    final = {}
    for kb in (kept, now):
        for seek, repl in kb.items():
            final[seek.replace(".", " ").upper()] = repl
    TITLES.extend(sorted(x for x in final.items() if not ODD.search(x[0])))
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)")


def journals(refs):
    """(title, volume, year, page) of each journal, in order."""
    out = []
    for ref in refs:
        n = len(ref.get("journal_title", ()))
        for k in range(n):
            out.append(tuple(ref.get(f, [None] * n)[k] if len(ref.get(f, [])) == n else
                             ref.get(f) for f in FIELDS))
    return out


def sweep(r, obs, i):
    """Titles of the default knowledge base, in upper case or as words."""
    picked = [TITLES[(i * 4 + k) % len(TITLES)] for k in range(4)]
    for seek, repl in picked:
        shown = seek if r.random() < 0.7 else seek.title()
        v, p, y = r.randint(2, 999), r.randint(3, 1800), r.randint(1950, 2020)
        line = "[1] Qwrt, %s %s." % (shown, r.choice(["%d, %d (%d)" % (v, p, y),
                                                      "%d (%d) %d" % (v, y, p)]))
        refs = obs.call(extract_references_from_string, line)
        title, _, series = repl.partition(";")
        got = journals(refs)
        obs.check(len(got) == 1 and got[0][0] == title.strip(), "title-not-recognised", line=line,
                  got=got, expected=repl)
        volume = series.strip() + str(v)
        obs.check(got[0][1:] == (volume, str(y), str(p)) or title in ("JHEP", "JCAP"),
                  "numeration", line=line, got=got, expected=(volume, y, p))
        obs.input(seek)
    obs.saw("titles swept")


def ibid(r, previous):
    """'ibid.' after a journal -> (text, fields)"""
    v, p, y = gen.number(r, 3), r.randint(3000, 9999), gen.year(r)
    while 1900 <= v <= 2099:
        v = gen.number(r, 3)
    series = re.match(r"[A-Z]?", previous["journal_volume"]).group(0)
    word = r.choice(["ibid.", "ibid", "Ibid.", "ibid. "]).strip()
    volume = str(v)
    k = r.random()
    if k < 0.3:
        series = r.choice("ABCD")
        volume = series + r.choice(["", " "]) + volume
    num = r.choice(["%s, %d (%d)" % (volume, p, y), "%s (%d) %d" % (volume, y, p)])
    return gen.El("IBID", word + " " + num,
                  {"journal_title": previous["journal_title"], "journal_volume": series + str(v),
                   "journal_year": str(y), "journal_page": str(p)},
                  ("series" if k < 0.3 else "same",))


def pos(r):
    name = r.choice(["LAT", "LATTICE", "ICHEP", "HEP", "LHCP", "DIS", "LL"])
    y = r.randint(1999, 2023)
    vol = name + str(y)
    p = r.choice(["%03d" % r.randint(1, 999), str(r.randint(100, 1300))])
    text = r.choice(["PoS %s (%d) %s" % (vol, y, p), "PoS(%s)%s" % (vol, p),
                     "PoS (%s) %s" % (vol, p), "PoS %s, %s (%d)" % (vol, p, y)])
    return gen.El("POS", text, {"journal_title": "PoS", "journal_volume": vol,
                                "journal_year": str(y), "journal_page": p}, (text[3],))


def noyear(r):
    """Volume and page only."""
    j = gen.journal(r, fmt="v,p(y)")
    text = re.sub(r" \(\d{4}\)$", "", j.text)
    fields = {k: v for k, v in j.fields.items() if k != "journal_year"}
    return gen.El("NOYEAR", text, fields, j.feat)


def entry(r, obs, i):
    els = []
    last = None
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        k = r.random()
        if last is not None and k < 0.3:
            e = ibid(r, last)
        elif k < 0.5:
            e = gen.special_journal(r)
        elif k < 0.6:
            e = pos(r)
        else:
            e = gen.journal(r)
        last = e.fields if e.kind == "JOURNAL" and "special" not in e.feat else (
            e.fields if e.kind == "IBID" else None)
        els.append(e)
    text = "[1] "
    if r.random() < 0.7:
        text += gen.author_group(r).text + ", "
    if r.random() < 0.3:
        text += gen.quoted(r).text + ", "
    if r.random() < 0.2:
        text += gen.phrase(r) + ", "
    for k, e in enumerate(els):
        if k:
            text += r.choice([", ", "; ", "; "])
            if r.random() < 0.2 and e.kind != "IBID":
                text += gen.author_group(r).text + ", "
        text += e.text
        if r.random() < 0.2:
            text += ", " + r.choice([gen.doi, gen.arxiv, gen.report])(r).text
    text += r.choice([".", "", ";", ", and references therein."])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    want = [tuple(e.fields[f] for f in FIELDS) for e in els]
    got = journals(refs)
    obs.equal(got, want, "journals", text=text)
    refs_text = [x for ref in refs for x in ref.get("journal_reference", [])]
    obs.equal(refs_text, ["%s %s (%s) %s" % (t, v, y, p) for t, v, y, p in want],
              "journal-reference", text=text)
    for ref in refs:
        if "journal_year" in ref:
            obs.equal(ref.get("year"), ref["journal_year"][:1], "year", text=text)
    obs.input(text)
    for e in els:
        obs.saw(*("%s:%s" % (e.kind, f) for f in e.feat))


def without_year(r, obs, i):
    e = noyear(r)
    text = "[1] %s, %s%s" % (gen.author_group(r).text, e.text, r.choice([".", "", ";"]))
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    got = journals(refs)
    obs.equal(got, [(e.fields["journal_title"], e.fields["journal_volume"], None,
                     e.fields["journal_page"])], "journal-without-year", text=text)
    obs.input(text)
    obs.saw("without-year")


def publication_info(r, obs, i):
    """extract_journal_reference: a bare citation."""
    e = gen.journal(r) if r.random() < 0.8 else gen.special_journal(r)
    got = obs.call(extract_journal_reference, e.text, override_kbs_files=KB)
    obs.check(isinstance(got, dict), "no-journal-reference", text=e.text, got=got)
    names = {"journal_title": "title", "journal_volume": "volume", "journal_year": "year",
             "journal_page": "page"}
    obs.equal({n: got.get(n) for n in names.values()},
              {n: e.fields[f] for f, n in names.items()}, "publication-info", text=e.text)
    obs.input("journal", e.text)
    obs.saw("publication-info")


KINDS = {
    "entry": (5000, 60000, entry),
    "without_year": (400, 4000, without_year),
    "publication_info": (1000, 10000, publication_info),
    "sweep": (lambda seed: -(-len(TITLES) // 4), lambda seed: 4 * -(-len(TITLES) // 4), sweep),
}
