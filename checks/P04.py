"""No text of a reference is lost, repeated or made up."""

import collections
import re
from urllib.parse import unquote

import fuzz
import gen
from refextract import extract_references_from_string
from unidecode import unidecode

import compose

PROPERTY = "P04"
LEVEL = "exploration"
RULE = (
    "entries in which made-up words are placed between the elements of citations (authors, "
    "collaborations, titles, journals with and without year, identifiers, links, books and "
    "publishers, in any order, with several citations per entry); every made-up word is looked "
    "for in the fields of the result, and every word of the result in the entry. Non-trivial: at "
    "least one made-up word and one recognised element. A second workload looks for the "
    "identifiers, links and years found in hostile texts in these texts"
)
ASSUMPTIONS = [
    "a made-up word is separated from a link or handle by a comma or semicolon (links broken by "
    "spaces are glued together on purpose)",
]
KB = {
    "journals": gen.SMALL_KB,
    "books": [["Zed, A.", "Strings for pedestrians", "1999;"],
              ["Ypsilon, B.", "Walls without doors", "2003;"]],
}
SYLLABLES = ["ba", "ce", "di", "fo", "gu", "ka", "le", "mi", "no", "pu", "ra", "se", "ti", "vo",
             "zu"]
SRC = None


def setup():
    global SRC
    SRC = fuzz.Source()
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def words(r, taken, before=None, after=None):
    out = []
    for _ in range(r.randint(1, 4)):
        w = "".join(r.choice(SYLLABLES) for _ in range(4)) + r.choice(["", "x", "q"])
        if r.random() < 0.08:
            w = r.choice([w + str(gen.year(r)), str(gen.year(r)) + w, "%da" % gen.year(r)])
            if before in ("NOYEAR", "TITLE-ONLY", "NUM", "IBID", "JOURNAL") or after == "NUM":
                w = w.lstrip("0123456789") + "year"  # would be the year or page of the citation
        if w not in taken:
            taken.add(w)
            out.append(w)
    if taken and r.random() < 0.05:
        # the same word again
        out.append(r.choice(sorted(taken)))
    return out


def oddity(r):
    """Elements which are handled apart."""
    k = r.randrange(9)
    if k == 0:
        return gen.El("BOOK", '"%s"' % r.choice(["Strings for pedestrians", "Walls without doors"]),
                      {})
    if k == 1:
        return gen.El("NOYEAR", "JHEP %02d, %d" % (r.randint(1, 12), gen.year(r)), {})
    if k == 2:
        return gen.El("COLLABORATION", "CDF Collaboration", {})
    if k == 3:
        return gen.El("ED", "A. Smith (ed.)", {})
    if k == 4:
        return gen.El("IBID", "ibid. %d, %d (%d)" % (gen.number(r), r.randint(3000, 9999),
                                                     gen.year(r)), {})
    if k == 5:
        return gen.El("NUM", "%d, %d (%d)" % (r.randint(1, 99), r.randint(3000, 9999),
                                              gen.year(r)), {})
    if k == 6:
        return gen.El("YEAR", r.choice(["(%d)", "%d"]) % gen.year(r), {})
    if k == 7:
        return gen.El("TITLE-ONLY", r.choice(["Phys. Rev.", "JHEP", "Nucl. Phys."]), {})
    return gen.El("SMALL", r.choice(["in press", "to appear", "eprint", "Vol. 3", "p. 77", "[E]",
                                     "Ph.D. thesis", "unpublished"]), {})


FIELD_WORD = re.compile(r"[^\W_]+")


def occurrences(refs):
    """word -> number of times it is in the fields, and the words of misc in order."""
    count, order = collections.Counter(), []
    for ref in refs:
        for field, values in ref.items():
            if field in ("raw_ref", "linemarker"):
                continue
            for v in values:
                for w in FIELD_WORD.findall(v):
                    count[w] += 1
        for v in ref.get("misc", ()):
            order += FIELD_WORD.findall(v)
    return count, order


def fillers(r, obs, i):
    els = compose.citation(r, filler=False)
    for _ in range(r.choice([0, 0, 1, 2])):
        els += compose.citation(r, filler=False)
    for _ in range(r.choice([0, 1, 2])):
        els.insert(r.randrange(len(els) + 1), oddity(r))
    if r.random() < 0.15:
        # an author who is mentioned again
        who = [e for e in els if e.kind == "AUTH"]
        if who:
            again = re.split(", | and | et al", who[0].text)
            els.insert(r.randrange(len(els) + 1), gen.El("AUTH", r.choice(again + [who[0].text]),
                                                         {}))
    parts, plain = [], []
    taken = set()
    for e in els:
        if r.random() < 0.65:
            ws = words(r, taken, parts and parts[-1][1], e.kind)
            if ws:
                parts.append((" ".join(ws), "WORDS"))
                plain += ws
        parts.append((e.text, e.kind))
    if r.random() < 0.65 or not plain:
        ws = words(r, taken, parts and parts[-1][1])
        parts.append((" ".join(ws), "WORDS"))
        plain += ws
    text = "[1] "
    for k, (t, kind) in enumerate(parts):
        text += t
        if k == len(parts) - 1:
            break
        loose = kind in ("URL", "HDL", "DOI") or parts[k + 1][1] in ("URL", "HDL")
        text += r.choice([", ", ", ", "; "] if loose else [", ", ", ", ", ", "; ", " "])
    text += r.choice([".", "", " ."])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    count, order = occurrences(refs)
    for w, n in collections.Counter(plain).items():
        obs.check(count[w] >= n, "text-lost", word=w, text=text, refs=refs)
        obs.check(count[w] == n, "text-repeated", word=w, text=text, refs=refs)
    # names are carried over to the next paper, but never lost
    names = collections.Counter(
        w for e in els if e.kind == "AUTH" for w in re.findall(r"[A-Z][a-z]{3,}", e.text))
    for w, n in names.items():
        obs.check(count[w] >= n, "name-lost", word=w, text=text, refs=refs)
    mine = [w for w in order if w in taken]
    if len(refs) == 1:
        obs.equal(mine, [w for w in plain if w in set(mine)], "text-reordered", text=text,
                  refs=refs)
    if els:
        obs.input(text)
    obs.saw("refs:%d" % min(len(refs), 9), *("el:" + k for _, k in parts))
    check_no_fabrication(obs, text, refs)


CHECKED = ("misc", "author", "url", "urldesc", "doi", "hdl", "isbn", "title", "journal_page",
           "year", "journal_year")
STANDARD = {"ed", "eds", "et", "al"}


def squeeze(s):
    return re.sub(r"[\W_]+", "", unidecode(s).lower())


def check_no_fabrication(obs, text, refs):
    for ref in refs:
        # links are repaired by removing spaces; encoded slashes are decoded
        raw = squeeze(ref["raw_ref"][0].replace("%2F", "/").replace("%2f", "/"))
        for field in CHECKED:
            for v in ref.get(field, ()):
                if field in ("title", "year") and "title" in ref and (
                        {"Strings for pedestrians", "Walls without doors"} & set(ref["title"])):
                    continue
                for w in FIELD_WORD.findall(v):
                    s = squeeze(w)
                    if s in raw or s in STANDARD or field == "hdl" and s == "hdl" \
                            or field == "doi" and s in ("doi", "doi10"):
                        obs.events += 1
                        continue
                    if field == "journal_page" and s.isdigit() and s.lstrip("0") in raw:
                        continue
                    obs.fail("text-made-up", field=field, value=v, word=w, ref=ref, text=text)


def hostile(r, obs, i):
    """The identifiers and links of any text are in this text."""
    k = r.randrange(3)
    if k == 0:
        text = SRC.soup(r)
    else:
        els = compose.citation(r) + compose.citation(r)
        text = "[1] " + compose.text_of(els)
        for _ in range(k):
            text = SRC.mutate(r, text)
    # text which looks like the internal markup is ignored, some control characters are replaced
    text = re.sub(r"<\s*/?\s*cds\s*\.", " ", text)
    text = re.sub(r"[\x00-\x08\x0b-\x1f]", " ", text)
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    for ref in refs:
        raw = squeeze(ref["raw_ref"][0])
        decoded = squeeze(unquote(ref["raw_ref"][0]))
        slashes = squeeze(re.sub("%2f", "/", ref["raw_ref"][0], flags=re.I))
        for field in ("doi", "url", "hdl", "isbn"):
            for v in ref.get(field, ()):
                if field in ("doi", "hdl"):
                    v = v.split(":", 1)[1]
                v = squeeze(v)
                if field == "hdl" and "arxiv" in raw:
                    # an arXiv number glued to the handle has been put in its standard form
                    extra = collections.Counter(v) - collections.Counter(raw)
                    obs.check(not extra, "text-made-up", field=field, value=v, ref=ref, text=text)
                    continue
                obs.check(v in raw or v in decoded or v in slashes, "text-made-up", field=field, value=v, ref=ref,
                          text=text)
                obs.saw("found:" + field)
                obs.input(text)
        for field in ("year", "journal_year"):
            for v in ref.get(field, ()):
                if {"Strings for pedestrians", "Walls without doors"} & set(ref.get("title", ())):
                    continue
                obs.check(squeeze(v) in raw, "text-made-up", field=field, value=v, ref=ref,
                          text=text)
                obs.saw("found:" + field)
                obs.input(text)


KINDS = {
    "fillers": (3600, 50000, fillers),
    "hostile": (3000, 50000, hostile),
}
