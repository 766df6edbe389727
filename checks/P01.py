"""Any text yields well-formed references."""

import fuzz
import gen
import wellformed
from refextract import extract_journal_reference, extract_references_from_string

PROPERTY = "P01"
LEVEL = "exploration"
RULE = (
    "hostile texts (token soup over a hand-written dictionary, string/integer constants and "
    "strings generated from the regular expressions of the code under test, mutated realistic "
    "bibliographies, coverage-guided mutation) through the string entry points in both modes, "
    "with default and replaced knowledge bases and several reference formats; non-trivial: at "
    "least one reference was returned and its shape was checked"
)
ASSUMPTIONS = [
    "texts are at most 4000 characters, except in the size kind",
    "text given with the internal markup literally in it is exempt from the no-markup clause",
]

FORMATS = ["{title} {volume} ({year}) {page}", "{title},{volume},{page}", "{title}",
           "{page}|{year}|{volume}|{title}"]
SRC = None


def setup():
    global SRC
    SRC = fuzz.Source()
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)")


def run(obs, text, r, kb):
    mode = r.random() < 0.6
    result = obs.call(
        extract_references_from_string,
        text,
        is_only_references=mode,
        reference_format=r.choice(FORMATS),
        override_kbs_files=kb,
        linker_callback=(lambda el: 7) if r.random() < 0.1 else None,
    )
    wellformed.check_result(obs, result, text)
    if mode and text.strip():
        obs.saw("only-references")
    if result:
        obs.input(text, mode)
        obs.saw("refs:%s" % min(len(result), 9))
    return result


def kb_small():
    return {"journals": fuzz.SMALL_KB}


def bibliography(r, n=None):
    lines = []
    style = r.choice(["[%d] ", "%d. ", "(%d) ", "%d) ", "{%d} ", ""])
    for k in range(1, (n or r.randint(1, 5)) + 1):
        els = [f(r) for f in r.sample(
            [gen.author_group, gen.quoted, gen.journal, gen.special_journal, gen.doi, gen.arxiv,
             gen.report, gen.url, gen.html_url, gen.handle, gen.isbn, gen.publisher,
             gen.collaboration], r.randint(1, 5))]
        line = r.choice([", ", "; ", " ", ". "]).join(e.text for e in els)
        lines.append((style % k if style else "") + line)
    return "\n".join(lines)


def soup(r, obs, i):
    run(obs, SRC.soup(r), r, kb_small())


def soup_default(r, obs, i):
    run(obs, SRC.soup(r, r.choice([3, 8, 13])), r, None)


def mutated(r, obs, i):
    run(obs, SRC.mutate(r, bibliography(r)), r, kb_small())


def mutated_fulltext(r, obs, i):
    body = "\n".join(gen.phrase(r, 4, 10) for _ in range(r.randint(0, 30)))
    text = body + "\n" + r.choice(["References", "REFERENCES", "Bibliography", "[1]"]) + "\n"
    text += bibliography(r, r.randint(1, 12))
    if r.random() < 0.5:
        text += "\n" + r.choice(["Appendix A", "Table 1", "Figure 1", "\f", "Acknowledgements"])
        text += "\n" + gen.phrase(r)
    for _ in range(r.randint(0, 3)):
        text = SRC.mutate(r, text)
    result = obs.call(extract_references_from_string, text, is_only_references=False,
                      override_kbs_files=kb_small())
    wellformed.check_result(obs, result, text)
    if result:
        obs.input(text)
        obs.saw("fulltext")


def guided(r, obs, i):
    """A session of mutation which keeps what reaches new code."""
    cov = fuzz.Coverage()
    try:
        corpus = [bibliography(r, 1) for _ in range(3)] + [SRC.soup(r) for _ in range(3)]
        for text in corpus:
            run(obs, text, r, kb_small())
        cov.take()
        for _ in range(40):
            parent = r.choice(corpus)
            text = SRC.mutate(r, parent)
            if r.random() < 0.2:
                text = SRC.mutate(r, text + r.choice(corpus))
            run(obs, text, r, kb_small())
            if cov.take():
                corpus.append(text)
                obs.saw("new-coverage")
    finally:
        cov.close()


def size(r, obs, i):
    """Large repetition counts: thresholds, quadratic blow-ups, conversions."""
    unit = r.choice(
        [lambda: "9", lambda: "a ", lambda: "A. Smith, ", lambda: ". ", lambda: "(", lambda: "[1]",
         lambda: "Phys. Rev. D 1, 2 (1999); ", lambda: "http://a.b/c ", lambda: "doi:10.1/a ",
         lambda: "arXiv:1207.1234, ", lambda: "ibid ", lambda: '"x" ', lambda: "X", lambda: "\n",
         lambda: "\f", lambda: "-", lambda: "Smith J., ", lambda: "ISBN 0306406152 ",
         lambda: "CMS Collaboration ", lambda: "1999 "]
    )()
    n = r.choice([30, 60, 120, 4301 if len(unit) == 1 else 90])
    text = r.choice(["", "[1] ", "1. "]) + unit * n + r.choice(["", " end", "\n[2] end"])
    obs.saw("size:" + unit.strip()[:12])
    run(obs, text, r, kb_small())


def numbers(r, obs, i):
    """Numbers which no conversion takes: of thousands of digits, of other scripts."""
    huge = r.choice("123456789") * r.choice([20, 400, 4301, 5000])
    odd = r.choice([huge, huge, "\u00b2\u00b3", "\u2460", "\u0661\u0662", "\u0967", "\uff11\uff12",
                    "1" + "0" * 4400, "\u2167", "1\u00b9", "0" * 4400 + "1"])
    mark = r.choice(["[%s] ", "%s. ", "(%s) ", "{%s} ", "%s ", "[%s", "%s) ", "<%s> ", "[%s]"])
    n = r.randint(2, 9)
    at = r.randint(1, n)
    lines = []
    for k in range(1, n + 1):
        body = bibliography(r, 1).split(" ", 1)[-1]
        if k == at and r.random() < 0.5:
            words = body.split(" ")
            words.insert(r.randint(0, len(words)), r.choice(
                ["%s", "vol. %s", "(%s)", "p. %s", "[%s]", "doi:10.1/%s", "arXiv:%s", "no. %s",
                 "Phys. Rev. D %s", "ISBN %s"]) % odd)
            body = " ".join(words)
            obs.saw("odd number within")
        lines.append(mark % (odd if k == at else k) + body)
        obs.saw("odd marker")
    if r.random() < 0.5:
        lines = [gen.phrase(r) for _ in range(r.randint(0, 12))] + r.choice(
            [["References"], ["References"], []]) + lines
        result = obs.call(extract_references_from_string, "\n".join(lines),
                          is_only_references=False, override_kbs_files=kb_small())
        wellformed.check_result(obs, result, "\n".join(lines))
        obs.events += 1
        obs.input("\n".join(lines))
    else:
        run(obs, "\n".join(lines), r, kb_small())


UNITS = [
    "A. ", "A.", "A ", "A-", "a ", "a", "Smith ", "Smith, ", "A. Smith, ", "A. Smith,",
    "Smith A., ", "and ", "et al., ", ". ", ".", ",", ", ", "(", ")", "[", "]", "1", "1 ", "12, ",
    "1999 ", "(1999) ", "-", "- ", "/", ":", ";", "; ", "'", '"', "Phys. Rev. ", "vol. ", "no. ",
    "p. ", "A1 ", "(ed.) ", "eds. ", "&", "\t", " ", "x.", "/x", "http://", "http:// a",
    "h t t p : / / ", "doi:", "10.1/", "arXiv:", "hep-th/", "ISBN ", "9-", "[1] ", "<", "> ", "Vol",
    "VI", "IX ", " of ", "J", "Jr. ", "van ", "O'", "ibid. ", "E ", "III", "of the ",
    "Collaboration ",
]


def repetition(r, obs, i):
    """Repeated groups of pieces: expressions which can match in many ways."""
    pre = "".join(r.choice(UNITS) for _ in range(r.randint(0, 4)))
    unit = "".join(r.choice(UNITS) for _ in range(r.choice([1, 1, 2, 3])))
    post = "".join(r.choice(UNITS + ["9", "_", "\n[2]"]) for _ in range(r.randint(0, 4)))
    text = r.choice(["[1] ", "[1] ", ""]) + pre + unit * r.choice([20, 40]) + post
    text += r.choice(["", " and A. Smith, foo"])
    obs.saw("repeated:" + unit[:12])
    run(obs, text, r, kb_small())


def journal_line(r, obs, i):
    """The single-line entry point returns None or one journal element."""
    text = SRC.soup(r) if r.random() < 0.6 else SRC.mutate(r, bibliography(r, 1))
    got = obs.call(extract_journal_reference, text, override_kbs_files=kb_small())
    if got is None:
        obs.saw("journal:none")
        return
    obs.check(type(got) is dict, "journal-not-a-dict", text=text, got=repr(got)[:300])
    for k in ("title", "volume", "year", "page"):
        obs.check(isinstance(got.get(k), str), "journal-key-missing", key=k, text=text, got=got)
    obs.input(text)
    obs.saw("journal:found")


KINDS = {
    "soup_default": (250, 2500, soup_default),
    "soup": (2600, 40000, soup),
    "mutated": (1600, 25000, mutated),
    "mutated_fulltext": (500, 8000, mutated_fulltext),
    "guided": (32, 800, guided),
    "repetition": (1200, 20000, repetition),
    "size": (90, 600, size),
    "numbers": (240, 3000, numbers),
    "journal_line": (500, 6000, journal_line),
}
