"""An entry which cites several papers gives one reference for each of them."""

import compose
import gen
from refextract import extract_references_from_string

PROPERTY = "P08"
LEVEL = "exploration"
RULE = (
    "entries which cite one to six papers, separated by semicolons or by the repetition of a "
    "field (journal, title, DOI or arXiv identifier after the authors), with and without authors "
    "of their own, and each with up to eight other elements; number of references, marker and raw "
    "text of each, and every field of each are compared with the papers. Non-trivial: at least "
    "two papers"
)
ASSUMPTIONS = [
    "a paper has at most one element of each kind",
    "papers separated by a repeated field start with authors or with this field",
]
BOOKS = [["Zed, A.", "Strings for pedestrians", "1999;"],
         ["Ypsilon, B.", "Walls without doors", "2003;"], ["Ix, C.", "Fields of fields", "1987;"]]
KB = {"journals": gen.SMALL_KB, "books": BOOKS}
FIELDS = ("author", "title", "journal_title", "journal_volume", "journal_year", "journal_page",
          "doi", "hdl", "url", "urldesc", "isbn", "reportnumber", "publisher", "collaboration",
          "year")


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def citation(r, **kw):
    while True:
        els = compose.citation(r, **kw)
        # the initial after a Fermilab number: see P06
        if els[-1].feat[:1] != ("fermilab",):
            return els


def a_book(r):
    _, title, year = r.choice(BOOKS)
    form = r.choice([title, title.upper(), title.title()])
    return gen.El("QUOTED", '"%s"' % form, {"title": title, "year": year[:-1]}, ("book",))


def want_of(els, carried):
    out = compose.fields_of(els)
    if "author" not in out and carried:
        out["author"] = [carried]
    return {k: v for k, v in out.items() if k in FIELDS}


def judge(obs, text, marker, papers, refs, what):
    wants = []
    carried = None
    for els in papers:
        want = want_of(els, carried)
        carried = want.get("author", [None])[0]
        wants.append(want)
    got = [{k: v for k, v in ref.items() if k in FIELDS} for ref in refs]
    obs.check(len(got) == len(wants), "number-of-references", text=text, got=got, expected=wants)
    for g, w in zip(got, wants):
        obs.equal(g, w, "fields-of-a-paper", text=text, all=got)
    for ref, els in zip(refs, papers):
        for e in els:
            if e.kind == "MISC":
                obs.check(any(e.text in m for m in ref.get("misc", ())), "text-of-a-paper",
                          text=text, missing=e.text, ref=ref)
                obs.saw("text between elements")
            elif e.kind == "NAME":
                name = e.text.split()[4].rstrip(",")
                obs.check(name in " ".join(ref.get("misc", ())), "text-of-a-paper", text=text,
                          missing=name, ref=ref)
                obs.saw("names in the text")
    for ref in refs:
        obs.equal((ref["raw_ref"], ref.get("linemarker")), ([text], [marker]),
                  "marker-or-raw-text", text=text)
    if len(papers) > 1:
        obs.input(text)
    obs.saw("%s:%d papers" % (what, len(papers)))
    obs.saw("carried over" if any("author" not in compose.fields_of(p) for p in papers[1:])
            else "own authors")


def semicolons(r, obs, i):
    n = r.choice([1, 2, 2, 3, 4, 6])
    papers = []
    for k in range(n):
        while True:
            els = citation(r)
            if any(e.kind not in ("AUTH", "COLLABORATION", "MISC") for e in els):
                break
        if r.random() < 0.15 and not any(e.kind == "COLLABORATION" for e in els):
            els.append(gen.collaboration(r))
        if r.random() < 0.3:
            els = [a_book(r) if e.kind == "QUOTED" else e for e in els]
        if r.random() < 0.1 and els[0].kind == "AUTH":
            # other names in the text about the paper
            els.append(gen.El("NAME", "with remarks of %s. Q%s, unpublished" % (
                r.choice("ABCD"), r.choice(gen.SURNAMES).lower()), {}))
        elif k and papers[-1][-1].kind == "NAME" and not any(e.kind == "AUTH" for e in els):
            els.insert(0, gen.author_group(r))  # it is not clear whose authors these would be
        papers.append(els)
    marker = r.choice(["1", "7", "23"])
    text = "[%s] " % marker + r.choice(["; ", "; ", " ; "]).join(
        compose.text_of(p, end="") for p in papers) + r.choice([".", "", ";"])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    judge(obs, text, marker, papers, refs, "semicolon")


def a_title(r):
    return r.choice([a_book, gen.quoted])(r)


def repeated(r, obs, i):
    n = r.choice([2, 2, 3, 4])
    lead = r.choice([gen.journal, gen.journal, gen.special_journal, gen.quoted, a_title, gen.doi,
                     gen.arxiv])
    own = r.choice([True, False])
    papers = []
    for k in range(n):
        els = []
        if own or k == 0:
            els.append(gen.author_group(r))
        els.append(lead(r))
        tail = []
        if lead in (gen.quoted, a_title):
            tail.append(gen.journal(r))
        for f in (gen.doi, gen.arxiv, gen.isbn, gen.handle, gen.report):
            if f is not lead and r.random() < 0.25:
                tail.append(f(r))
        els += tail
        if els[-1].feat[:1] == ("fermilab",):
            els.append(gen.isbn(r) if not any(e.kind == "ISBN" for e in els) else gen.publisher(r))
        papers.append(els)
    text = "[1] " + ", ".join(compose.text_of(p, end="") for p in papers) + r.choice([".", ""])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    judge(obs, text, "1", papers, refs, "repeated " + lead.__name__)


def mixed(r, obs, i):
    """Semicolons between groups of papers which are told apart by a repeated field."""
    groups = []
    for _ in range(r.choice([2, 2, 3])):
        lead = r.choice([gen.journal, gen.special_journal, gen.quoted, gen.doi, gen.arxiv])
        own = r.choice([True, True, False])
        papers = []
        for k in range(r.choice([1, 2, 3, 4])):
            els = [gen.author_group(r)] if own or k == 0 else []
            els.append(lead(r))
            for f in (gen.doi, gen.isbn, gen.handle):
                if f is not lead and r.random() < 0.2:
                    els.append(f(r))
            papers.append(els)
        groups.append(papers)
    text = "[1] " + "; ".join(", ".join(compose.text_of(p, end="") for p in papers)
                              for papers in groups) + r.choice([".", ""])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    judge(obs, text, "1", [p for papers in groups for p in papers], refs, "mixed")


NUMBERS = ["%(sv)s, %(p)s (%(y)d)", "%(sv)s (%(y)d) %(p)s"]


def numeration(r, name, series):
    """-> text, volume, year, page"""
    year = r.randint(1970, 2019)
    if name in ("JHEP", "JCAP"):
        v, p = r.randint(1, 12), r.randint(13, 999)
        d = dict(sv="%02d" % v, p=str(p), y=year)
        out = "%s%02d" % (str(year)[2:], v), str(year), "%03d" % p
    else:
        v, p = r.randint(13, 199), str(r.randint(200, 999))
        if r.random() < 0.3:
            p += "-" + str(int(p) + r.randint(1, 9))
        if not series and r.random() < 0.2 and "-" not in p:
            shown = gen.roman(v)
        else:
            shown = series + str(v)
        d = dict(sv=shown, p=p, y=year)
        out = series + str(v), str(year), p
    return (r.choice(NUMBERS) % d,) + out


def numerations(r, obs, i):
    """A volume and page after a semicolon repeat the journal of the paper right before, only."""
    parts, want = [], []
    last = None
    for k in range(r.choice([2, 3, 4, 5, 6])):
        kind = r.choice("JNNO") if k else r.choice("JJO")
        if kind == "J":
            name = r.choice(["Phys. Rev.", "Nucl. Phys.", "Zeta Lett.", "JHEP", "JCAP"])
            series = r.choice(["", "B", "D"]) if name[0] != "J" else ""
            text, *fields = numeration(r, name, series)
            parts.append(name + " " + text)
            want.append((name, *fields))
            last = (name, series)
        elif kind == "N":
            name, series = last or ("Phys. Rev.", "")
            shown = r.choice("ABCD") if r.random() < 0.5 and name[0] != "J" else ""
            text, *fields = numeration(r, name, shown)
            first = text.split(" ")[0].rstrip(",")
            if shown == "" and series and first != fields[0]:
                # no series in front of a roman volume
                text = fields[0] + text[len(first):]
            parts.append(text)
            if last:
                fields[0] = fields[0] if shown else series + fields[0]
                want.append((name, *fields))
                last = (name, shown or series)
                obs.saw("implied:" + name, "implied pages" if "-" in text else "implied page")
            else:
                want.append(None)
                last = None
        else:
            parts.append(r.choice([gen.arxiv, gen.doi, gen.isbn])(r).text)
            want.append(None)
            last = None
    who = gen.author_group(r).text if r.random() < 0.7 else ""
    text = "[1] " + (who and who + ", ") + "; ".join(parts) + r.choice([".", ""])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    got = [tuple(ref["journal_" + x][0] for x in ("title", "volume", "year", "page"))
           if "journal_title" in ref else None for ref in refs]
    obs.equal(got, want, "journals-of-the-papers", text=text, refs=refs)
    obs.input(text)
    obs.saw("numerations:%d" % sum(w is not None for w in want))


STYLES = [
    # APS, JHEP, Elsevier, utphys, Springer and others
    "{A}, {J} {V}, {P} ({Y}), {X}.",
    "{A}, {J} {V}, {P} ({Y}) {X}.",
    "{A}, {J} {V}, {P} ({Y}) [{X}].",
    "{A}, {J} {V} ({Y}) {P} [{X}] [INSPIRE].",
    "{A}, {t}, {J} {V} ({Y}) {P} [{X}] [INSPIRE].",
    "{A}, {t}, {J} {V} ({Y}) {P} [{X}].",
    "{A}, {t}, {J} {V} ({Y}) {P}, https://doi.org/{D}, {X}.",
    "{A}, {t}, {J} {V} ({Y}) {P}, doi:{D}.",
    "{A}, {t}, {J} {V} ({Y}) {P}. https://doi.org/{D}.",
    "{A}, \u201c{t},\u201d {J} {V} ({Y}) {P}, {X}.",
    "{A}, \u201c{t},\u201d {J} {V}, {P} ({Y}), {X}.",
    "{A}, \u201c{t},\u201d {J} {V}, {P} ({Y}) doi:{D} [{X}].",
    "{A}, \"{t},\" {J} {V}, {P} ({Y}) [{X}].",
    "{A}, \"{t}\", {J} {V}, {P} ({Y}), [{X}].",
    "{A}, \"{t}\", {J} {V}:{P}, {Y}.",
    "{A}, {J} {V}:{P} ({Y}) {X}.",
    "{A}, {J} {V}, {P} ({Y}). DOI {D}.",
    "{A}, {J} {V}, {P} ({Y}). doi:{D}. {X}.",
    "{A}: {t}. {J} {V}, {P} ({Y}). https://doi.org/{D}",
    "{A}: {t}. {J} {V}, {P} ({Y}). {X}",
    "{A} ({Y}). {t}. {J}, {V}, {P}. https://doi.org/{D}",
    "{A}, {t}, {X}, {J} {V}, {P} ({Y}).",
    "{A}, {t}, {X} {J} {V}, {P} ({Y}).",
    "{A}, {t}, [{X}] {J} {V}, {P} ({Y}).",
    "{A}, {t}, {X}.",
    "{A}, {X} ({Y}).",
    "{A}, preprint {X}.",
    "{A} {J} {V} ({Y}) {P}.",
]


def styles(r, obs, i):
    """The styles of the common BibTeX styles."""
    style = STYLES[i % len(STYLES)]
    name, series = r.choice([("Phys. Rev.", ""), ("Phys. Rev.", "D"), ("Nucl. Phys.", "B"),
                             ("Phys. Rev. Lett.", ""), ("Phys. Lett.", "B"), ("Zeta Lett.", "")])
    vol, page, year = str(r.randint(13, 199)), str(r.randint(200, 999)), str(r.randint(1970, 2019))
    shown = r.choice([name + " " + series, (name + " " + series).replace(". ", ".")])
    who, t = gen.author_group(r).text, gen.phrase(r, 3, 8).capitalize()
    doi = "10.%d/x%s.%s" % (r.randint(1000, 9999), vol, page)
    pre, x = r.choice([
        ("arXiv:1211.%04d" % r.randint(1, 9999), None), ("hep-th/9901%03d" % r.randint(1, 999), None),
        ("arXiv:1211.%04d [hep-ph]" % r.randint(1, 9999), None), ("arXiv:hep-ph/9901%03d" %
                                                                   r.randint(1, 999), 6)])
    gap = r.choice(["", " "]) if series and name != "Phys. Lett." else " "
    text = "[1] " + style.replace("{J} {V}", "{J}{V}").format(
        A=who, J=shown.strip(), V=gap + vol,
        P=page, Y=year, X=pre, D=doi, t=t)
    want = {"author": [who]}
    if "{J}" in style:
        want.update(journal_title=[name], journal_volume=[series + vol], journal_page=[page],
                    journal_year=[year])
    if "{D}" in style:
        want["doi"] = ["doi:" + doi]
    if "{X}" in style:
        want["reportnumber"] = [pre[x:]]
    if "{Y}" in style:
        want["year"] = [year]
    if '"{t}' in style or "\u201c{t}" in style:
        want["title"] = [t]
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    got = [{k: v for k, v in ref.items() if k in FIELDS} for ref in refs]
    if style.startswith("{A} ({Y})"):
        want.pop("journal_year")
    obs.equal(got, [want], "fields-of-a-paper", text=text, style=style)
    if "{t}" in style and "title" not in want:
        obs.check(t in " ".join(refs[0].get("misc", ())), "text-of-a-paper", text=text, refs=refs)
    obs.input(text)
    obs.saw("style " + style)


KINDS = {
    "mixed": (1500, 20000, mixed),
    "styles": (1500, 15000, styles),
    "numerations": (1500, 15000, numerations),
    "semicolons": (3500, 40000, semicolons),
    "repeated": (3500, 40000, repeated),
}
