"""Authors, titles, collaborations, publishers, books and years are recognised as printed."""

import csv
import gzip
import json
import os
import re

import gen
from refextract import extract_references_from_string
from refextract.references.config import CFG_REFEXTRACT_KBS

PROPERTY = "P18"
LEVEL = "exploration"
RULE = (
    "author groups of one to twelve names (initials before or after the name, prefixes, suffixes, "
    "hyphens, apostrophes, accents, capitals; all separators, et al., editors), quoted titles with "
    "punctuation, names, years and terms of the knowledge bases, years with and without journal, "
    "and every publisher, collaboration and book of the default knowledge bases in several "
    "spellings, each among other elements; the fields are compared with what was printed. "
    "Non-trivial: every case"
)
ASSUMPTIONS = [
    "first names are abbreviated, or followed by an abbreviated second name",
    "one collaboration for each citation; books are cited with their exact title",
]
KB = {"journals": gen.SMALL_KB}
PUBLISHERS, COLLABS, BOOKS = [], [], []


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)
    # the terms of the repository as it was, and those it has got since
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with gzip.open(os.path.join(here, "data", "other_kbs.json.gz"), "rt", encoding="utf-8") as f:
        kept = json.load(f)
    with open(CFG_REFEXTRACT_KBS["publishers"], encoding="utf-8") as f:
        now = dict(x.strip().split("---") for x in f if "---" in x and not x.startswith("#"))
    PUBLISHERS.extend(sorted(dict(dict(kept["publishers"]), **now).items()))
    with open(CFG_REFEXTRACT_KBS["collaborations"], encoding="utf-8") as f:
        now = [x.split("---")[0] for x in f if "---" in x and not x.startswith("#")]
    COLLABS.extend(kept["collaborations"] + [x for x in now if x not in kept["collaborations"]])
    with open(CFG_REFEXTRACT_KBS["books"], encoding="utf-8") as f:
        now = [x for x in csv.reader(f, delimiter="|") if len(x) == 3]
    titles_now = {flat(b[1]) for b in now}
    BOOKS.extend(now + [b for b in kept["books"] if flat(b[1]) not in titles_now])


def parse(obs, text):
    return obs.call(extract_references_from_string, text, override_kbs_files=KB)


INITIALS = "ABCDEFGHJKLMNPRSTW"
PLAIN = gen.SURNAMES
FANCY = ["van Holten", "de Wit", "van Nieuwenhuizen", "Le Bellac", "Di Giacomo", "O'Raifeartaigh",
         "Dall'Agata", "M\u00fcller", "G\u00f6ke", "\u00d8deg\u00e5rd", "\u00c1lvarez-Gaum\u00e9",
         "M\u00fcller-Lyer", "Itzykson-Zuber", "McDonald", "MacCallum", "G\u00fcrsoy", "Li", "Wu",
         "Cho", "Yang"]


def initials(r, style):
    n = r.choice([1, 1, 2, 2, 3])
    ini = [r.choice(INITIALS) + "." for _ in range(n)]
    if style == "tight":
        return "".join(ini)
    if style == "hyphen" and n > 1:
        return "-".join(ini[:2])
    return " ".join(ini)


def name(r, order):
    style = r.choice(["spaced", "tight", "hyphen"])
    surname = r.choice(PLAIN) if r.random() < 0.6 or order != "first" else r.choice(FANCY)
    ini = initials(r, style)
    if order == "first":
        if r.random() < 0.1:
            surname = surname.upper() if surname in PLAIN else surname
        return ini + (" " if r.random() < 0.9 or style != "tight" else "") + surname
    if order == "last,":
        return surname + ", " + ini
    return surname + " " + ini


def group(r):
    order = r.choice(["first", "first", "first", "last,", "last"])
    n = r.choice([1, 1, 2, 2, 3, 4, 6, 8, 12])
    names = [name(r, order) for _ in range(n)]
    sep = ", "
    how = r.choice(["and", ", and", "&", "comma", "et al.", ", et al."])
    if how == "et al.":
        how = r.choice(["et al.", "et al.", "et al", "et. al.", "et.al."])
    if "et" in how:
        t = sep.join(names) + ("" if how[0] == "," else " ") + how
        if how[0] == ",":
            t = sep.join(names) + how
    elif n > 1 and how != "comma":
        t = sep.join(names[:-1]) + {"and": " and ", ", and": ", and ", "&": " & "}[how] + names[-1]
    else:
        how = "comma"
        t = sep.join(names)
    return t, (order, n, how)


def tail(r):
    """What follows the authors, and the fields it gives."""
    y = gen.year(r)
    v, p = r.randint(13, 199), r.randint(300, 999)
    return r.choice([
        ("Phys. Rev. %d, %d (%d)" % (v, p, y), "journal_title", ["Phys. Rev."]),
        ("\"%s\", Nucl. Phys. B%d, %d (%d)" % (gen.phrase(r), v, p, y), "journal_title",
         ["Nucl. Phys."]),
        ("\"%s\"" % gen.phrase(r, 3), None, None),
        ("arXiv:%02d%02d.%04d" % (r.randint(8, 14), r.randint(1, 12), r.randint(1, 9999)), None, None),
        ("hep-th/%02d%02d%03d" % (r.randint(92, 99), r.randint(1, 12), r.randint(1, 999)), None, None),
        ("10.1000/x%d" % r.randint(1, 9999), None, None),
        ("%s, Phys. Lett. B %d, %d (%d)" % (gen.phrase(r), v, p, y), "journal_title",
         ["Phys. Lett."]),
    ])


def authors(r, obs, i):
    t, what = group(r)
    after, field, value = tail(r)
    lead = r.choice(["", "", "", "see ", "cf. ", "CMS Collaboration, "])
    if what[0] != "first" and lead in ("see ", "cf. "):
        lead = ""  # reads like a prefix of the name
    text = "[1] %s%s, %s." % (lead, t, after)
    refs = parse(obs, text)
    obs.equal(len(refs), 1, "number-of-references", text=text)
    want = re.sub(r"et\.? ?al\.?$", "et al.", t)
    obs.equal(refs[0].get("author"), [want], "authors", text=text, ref=refs[0])
    if field:
        obs.equal(refs[0].get(field), value, "element-after-the-authors", text=text, ref=refs[0])
    if lead.startswith("CMS"):
        obs.equal(refs[0].get("collaboration"), ["CMS Collaboration"], "collaboration", text=text)
    obs.input(text)
    obs.saw("order:%s" % what[0], "names:%d" % what[1], "joined:" + what[2])


def editors(r, obs, i):
    names = ", ".join(name(r, "first") for _ in range(r.randint(1, 3)))
    form, want = r.choice([
        ("%s (eds.)", "(%s (eds.))"), ("%s, eds.", "(%s (eds.))"), ("eds. %s", "(%s (eds.))"),
        ("edited by %s", "(%s (eds.))"), ("ed. by %s", "(%s (eds.))"), ("ed. %s", "(%s (eds.))"),
        ("%s (Ed.)", "%s (Ed.)"), ("%s (ed.)", "%s (ed.)"), ("%s (editors)", "(%s (eds.))"),
        ("%s (Eds.)", "(%s (eds.))"),
    ])
    if want[0] == "(" and r.random() < 0.3:
        names += " et al."
        obs.saw("editors et al.")
    text = "[1] \"%s\", %s, Springer, %d." % (gen.phrase(r).capitalize(), form % names, gen.year(r))
    refs = parse(obs, text)
    obs.check(any(want % names in ref.get("author", []) for ref in refs), "editors", text=text,
              refs=refs, expected=want % names)
    obs.input(text)
    obs.saw("editors:" + form)


def titles(r, obs, i):
    q = r.choice([('"', '"'), ("\u201c", "\u201d")])
    bits = [gen.phrase(r, 1, 4).capitalize()]
    for _ in range(r.randint(0, 4)):
        bits.append(r.choice([
            "of 1999", "(and doors)", "in the CMS Collaboration era", "by A. Jones et al.",
            "at Springer", "- a review", "and 3 others", "SU(3) x U(1)", "[part II]", "No. 7",
            "with M\u00fcller cells", "N = 4", "what is it?", "D-branes", "a: b", "x; y",
            "50% of them", "the J/psi", "AdS$_5$", "non-abelian", "{sets}", "it's",
            gen.phrase(r, 1, 3),
        ]) + r.choice(["", "", ",", ":"]))
    t = " ".join(bits).rstrip(",:")
    inside = r.choice(["", "", ",", "."])
    order = r.choice(["before", "after", "none"])
    y, v, p = gen.year(r), r.randint(13, 199), r.randint(300, 999)
    journal = "Phys. Rev. %d, %d (%d)" % (v, p, y)
    text = "[1] " + r.choice(["A. Smith, ", "A. Smith and B. Jones, ", ""])
    quoted = q[0] + t + inside + q[1]
    if order == "before":
        text += journal + ", " + quoted
    elif order == "after":
        text += quoted + (" " if inside else ", ") + journal
    else:
        text += quoted + (" " if inside else ", ") + "unpublished"
    refs = parse(obs, text + ".")
    obs.equal(len(refs), 1, "number-of-references", text=text, refs=refs)
    got = refs[0].get("title")
    obs.equal(got and [got[0].rstrip(",. ")] + got[1:], [t.rstrip(",. ")], "title", text=text)
    if order != "none":
        obs.equal(refs[0].get("journal_page"), [str(p)], "journal", text=text, ref=refs[0])
    obs.input(text)
    obs.saw("title: journal %s" % order, "quote:" + q[0], "bits:%d" % len(bits))


def spaces(r, obs, i):
    """The number of spaces between words does not matter."""
    t, what = group(r)
    after, field, value = tail(r)
    c = r.choice(COLLABS)
    p = r.choice(PUBLISHERS)[0]
    parts = [t, c, '"%s"' % gen.phrase(r, 2).capitalize(), after, p.title(), str(gen.year(r))]
    parts = [x for x in parts if r.random() < 0.7] or parts[:2]
    one = "[1] " + ", ".join(parts) + "."
    words = one.split(" ")
    two = words[0]
    for w in words[1:]:
        two += r.choice([" ", " ", " ", "  ", "   ", "     "]) + w
    a, b = parse(obs, one), parse(obs, two)
    for refs in (a, b):
        for ref in refs:
            ref.pop("raw_ref", None)
    obs.equal(b, a, "spaces", one=one, two=two)
    obs.input(two)
    obs.saw("spaces")


def publishers(r, obs, i):
    for seek, repl in PUBLISHERS if i < 12 else r.sample(PUBLISHERS, 30):
        form = r.choice([seek, seek.title(), seek.lower()])
        y = gen.year(r)
        shape = r.choice(['A. Smith, "%s", %s, %d', 'A. Smith, "%s" (%s, %d)', "%s, %s, %d",
                          'A. Smith, "%s", (%s %d)', 'A. Smith, %s (%s: %d)'])
        text = "[1] " + shape % (gen.phrase(r).capitalize(), form, y) + "."
        refs = parse(obs, text)
        obs.equal([ref.get("publisher") for ref in refs], [[repl]], "publisher", text=text,
                  refs=refs)
        obs.equal(refs[0].get("year"), [str(y)], "year-after-the-publisher", text=text, ref=refs[0])
        obs.input(text)
    obs.saw("publishers")


def collaborations(r, obs, i):
    for c in COLLABS:
        stem = c.removesuffix(" Collaboration")
        form = stem + r.choice([" Collaboration", " Collaboration", " collaboration", " Coll.",
                                " Collaborations"])
        shape = r.choice(["%s, ", "The %s, ", "the %s, ", "[%s], ", "A. Smith et al. (%s), ",
                          "A. Smith et al. [%s], ", "A. Smith et al., %s, ", "%s, A. Smith et al., ",
                          "A. Smith [%s], ", "%s: A. Smith, "])
        after, field, value = tail(r)
        text = "[1] " + shape % form + after + "."
        refs = parse(obs, text)
        obs.equal([ref.get("collaboration") for ref in refs], [[form.rstrip(".")]], "collaboration",
                  text=text, refs=refs)
        if "Smith" in shape:
            who = "A. Smith et al." if "et al" in shape else "A. Smith"
            obs.equal(refs[0].get("author"), [who], "authors", text=text, ref=refs[0])
        if field:
            obs.equal(refs[0].get(field), value, "element-after-the-collaboration", text=text)
        obs.input(text)
        obs.saw("collaboration in " + shape)


def books(r, obs, i):
    step = 4 if os.environ.get("VERIF_TIER", "quick") != "thorough" else 1
    for who, title, year in BOOKS[i * 25:i * 25 + 25][::step]:
        if '"' in title or "http" in title or " ." in title or "  " in title \
                or ", :" in title or not re.fullmatch("[12][0-9]{3};?", year):
            continue
        same = [b for b in BOOKS if b[1].upper() == title.upper()]
        form = r.choice([title, title.upper(), title.lower()])
        text = '[1] A. Smith, "%s".' % form
        refs = parse(obs, text)
        obs.check(any(ref.get("title") == [b[1]] and ref.get("year") == [b[2].strip(";")]
                      for ref in refs for b in same),
                  "book", text=text, refs=refs, expected=same)
        obs.input(text)
        obs.saw("quoted books")
        if i % 3 == 0:
            rest = gen.phrase(r, 2)
            text = '[1] A. Smith, "%s", %s.' % (form, rest)
            refs = parse(obs, text)
            obs.check(any(rest in m for ref in refs for m in ref.get("misc", [])),
                      "text-after-a-book", text=text, refs=refs, expected=rest)
        if not re.fullmatch("[A-Za-z ,:-]{12,}", title) or len(same) > 1 \
                or re.search(r"\b[A-Z]\b", title, re.I):  # reads like an initial
            continue
        year = year.strip(";")
        text = "[1] A. Smith, %s%s" % (form, r.choice([", %s.", " (%s).", ", unpublished (%s)."])
                                       % year)
        refs = parse(obs, text)
        if not any(set(ref) & NOT_A_BOOK or len(ref.get("misc", [])) > 1 for ref in refs):
            obs.check(any(flat(ref.get("title", [""])[0]) in flat(title) for ref in refs
                          if "title" in ref),
                      "book-in-the-text", text=text, refs=refs, expected=title)
            obs.input(text)
            obs.saw("books in the text")
        other = int(year) + 1 if year.isdigit() else 1901
        if not any(b[2].strip(";") == str(other) and flat(b[1]) in flat(title) for b in BOOKS):
            text = "[1] A. Smith, %s, %d." % (form, other)
            refs = parse(obs, text)
            obs.check(not any("title" in ref for ref in refs), "book-of-another-year", text=text,
                      refs=refs)
            obs.saw("books of another year")


NOT_A_BOOK = {"journal_title", "reportnumber", "doi", "isbn", "url", "hdl", "publisher"}


def flat(t):
    return re.sub("[^A-Z0-9]", "", t.upper())


def years(r, obs, i):
    y = gen.year(r)
    other = gen.phrase(r)
    shape = r.choice([
        "A. Smith, %s (%d)", "A. Smith, %s, %d", "A. Smith, \"%s\", %d", "A. Smith, \"%s\" (%d)",
        "A. Smith, %s, unpublished (%d)", "A. Smith, PhD thesis, %s, %d", "A. Smith, %s [%d]",
    ])
    text = "[1] " + shape % (other, y) + "."
    refs = parse(obs, text)
    obs.equal([ref.get("year") for ref in refs], [[str(y)]], "year", text=text, refs=refs)
    text2 = "[1] A. Smith, %s." % other
    refs = parse(obs, text2)
    obs.equal([ref.get("year") for ref in refs], [None], "year-made-up", text=text2)
    # the year of a journal
    v, p = r.randint(13, 199), r.randint(300, 999)
    text3 = "[1] A. Smith (%d), %s, Phys. Rev. %d, %d." % (y, other, v, p)
    refs = parse(obs, text3)
    obs.equal([(ref.get("year"), ref.get("journal_page")) for ref in refs],
              [([str(y)], [str(p)])], "year-before-the-journal", text=text3, refs=refs)
    # other numbers are not years
    number = r.choice(["2%d", "1%d", "%d1", "%d9", "20%d", "%d00"]) % y
    number = r.choice([number, number, "1799", "1234", "2100", "3000", "1899"])
    text4 = "[1] " + shape.replace("%d", "%s") % (other, number) + "."
    refs = parse(obs, text4)
    obs.equal([ref.get("year") for ref in refs], [None], "year-made-up", text=text4)
    obs.input(text)
    obs.saw("year: " + shape)


KINDS = {
    "authors": (3000, 30000, authors),
    "editors": (500, 5000, editors),
    "titles": (1500, 15000, titles),
    "publishers": (30, 200, publishers),
    "collaborations": (40, 400, collaborations),
    "books": (132, 132, books),
    "years": (600, 6000, years),
    "spaces": (800, 8000, spaces),
}
