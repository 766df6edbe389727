"""The reference format only decides how a journal citation is printed."""

import compose
import fuzz
import gen
from refextract import extract_references_from_string

PROPERTY = "P10"
LEVEL = "exploration"
RULE = (
    "entries with journal citations (with and without year, ibid., special journals) and hostile "
    "texts are parsed with the default format and with two others, out of fixed ones and ones put "
    "together at random from the four documented fields and literal text; non-trivial: there is "
    "a journal citation"
)
ASSUMPTIONS = ["formats use the four documented fields title, volume, year and page"]
KB = {"journals": gen.SMALL_KB}
DEFAULT = "{title} {volume} ({year}) {page}"
PART = ("title", "volume", "year", "page")
FIXED = ["{title},{volume},{page}", "{title}", "{page}-{year}", "{title}|{volume}|{year}|{page}",
         "{volume}{volume}", "{title:>20}", "{{{title}}}", "no journal"]
SRC = None


def setup():
    global SRC
    SRC = fuzz.Source()
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def a_format(r):
    if r.random() < 0.5:
        return r.choice(FIXED)
    out = ""
    for _ in range(r.randint(1, 5)):
        out += "{%s}" % r.choice(PART) + r.choice(["", ",", " ", "; ", "/", " p. ", "é", "%s"])
    return out


def rest(ref):
    return {k: v for k, v in ref.items() if k != "journal_reference"}


def judge(r, obs, text):
    plain = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    for fmt in (a_format(r), a_format(r), DEFAULT):
        refs = obs.call(extract_references_from_string, text, reference_format=fmt,
                        override_kbs_files=KB)
        obs.equal([rest(x) for x in refs], [rest(x) for x in plain], "format-changes-other-fields",
                  text=text, format=fmt)
        for ref in refs:
            titles = ref.get("journal_title", [])
            got = ref.get("journal_reference", [])
            if any(p in fmt for p in PART) and "title" in fmt:
                obs.equal(len(got), len(titles), "one-printed-citation-for-each-journal",
                          text=text, ref=ref)
            for k, title in enumerate(titles):
                parts = {p: ref.get("journal_" + p, []) for p in PART}
                if len(titles) > 1 and any(len(v) != len(titles) for v in parts.values()):
                    continue  # which of the journals is the value of?
                want = fmt.format(**{p: v[k] if v else "" for p, v in parts.items()})
                if not want.strip():
                    continue
                obs.check(want in got, "printed-citation", text=text, format=fmt, got=got,
                          expected=want)
                if len(got) == len(titles):
                    obs.equal(got[k], want, "printed-citation", text=text, format=fmt)
                obs.saw("journals:%d" % len(titles))
                obs.saw("without year" if not parts["year"] else "with year")
    if any("journal_title" in x for x in plain):
        obs.input(text)


def citations(r, obs, i):
    lines = []
    for k in range(1, r.choice([1, 1, 2, 3]) + 1):
        els = compose.citation(r)
        j = gen.journal(r)
        if r.random() < 0.3:
            j.text = "%s %s, %d" % (r.choice(list(gen.TITLE_FORMS)), r.choice(
                ["12", "B34", "A 99", "XII"]), r.randint(3, 1800))
        els.append(j)
        if r.random() < 0.2:
            els.append(gen.El("MISC", "ibid. %d, %d (%d)" % (r.randint(2, 99), r.randint(3, 1800),
                                                             gen.year(r)), {}))
        if r.random() < 0.1:
            els.append(gen.El("MISC", "%d, %d (%d)" % (r.randint(2, 99), r.randint(3, 1800),
                                                       gen.year(r)), {}))
        lines.append("[%d] " % k + compose.text_of(els).replace(", ", "; ", r.randrange(2)))
    judge(r, obs, "\n".join(lines))


def hostile(r, obs, i):
    text = " ".join(SRC.token(r) for _ in range(r.randint(2, 14)))
    text = r.choice(["[1] ", ""]) + text + ", Phys. Rev. " + " ".join(
        SRC.token(r) for _ in range(r.randint(0, 5)))
    judge(r, obs, text)


KINDS = {
    "citations": (1500, 20000, citations),
    "hostile": (600, 12000, hostile),
}
