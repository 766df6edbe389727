"""DOIs, links, handles and ISBNs are found wherever they are, exactly as printed."""

import compose
import gen
from refextract import extract_references_from_string

PROPERTY = "P05"
LEVEL = "exploration"
RULE = (
    "entries with one to five DOIs (twelve ways of printing them), URLs (raw and as HTML links), "
    "handles and ISBNs among authors, titles, journals and text, in parentheses, brackets, "
    "quotes-free running text, before every kind of punctuation, at the start and end of the "
    "entry, and broken over lines at spaces; the identifiers of the result, in order over all the "
    "references of the entry, are compared with the printed ones. Non-trivial: at least one"
)
ASSUMPTIONS = [
    "a link starting with http: or ftp: or a handle is followed by punctuation (the library "
    "glues links broken by spaces)",
]
KB = {"journals": gen.SMALL_KB}
FIELDS = ("doi", "url", "urldesc", "hdl", "isbn")
MAKERS = [gen.doi, gen.doi, gen.url, gen.html_url, gen.handle, gen.isbn]


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def wrapped(r, e):
    """The element in its immediate surroundings."""
    k = r.randrange(10)
    if e.kind == "ISBN" or "<a" in e.text:
        return e.text
    if k == 0 and not e.text.startswith("("):
        return "(" + e.text + ")"
    if k == 1:
        return "[" + e.text + "]"
    if k == 2:
        return r.choice(["see ", "available at ", "URL: ", "also at "]) + e.text
    return e.text


def line(r, n):
    """-> text, expected values in order, kinds"""
    els = []
    for _ in range(n):
        els.append(r.choice(MAKERS)(r))
    others = []
    if r.random() < 0.6:
        others.append(gen.author_group(r))
    if r.random() < 0.4:
        others.append(gen.quoted(r))
    if r.random() < 0.5:
        others.append(gen.journal(r))
    if r.random() < 0.3:
        others.append(gen.arxiv(r))
    if r.random() < 0.5:
        others.append(gen.El("MISC", gen.phrase(r), {}))
    pos = sorted(r.randrange(n + 1) for _ in others)
    for p, o in reversed(list(zip(pos, others))):
        els.insert(p, o)
    text = ""
    for k, e in enumerate(els):
        ident = any(f in FIELDS for f in e.fields)
        text += wrapped(r, e) if ident else e.text
        if k < len(els) - 1:
            text += r.choice([", ", ", ", ", ", "; ", ". " if not ident else ", "])
    text += r.choice([".", "", ";", ",", " ."])
    if els[-1].kind == "URL" and els[-1].text[-1] != ">" and r.random() < 0.5:
        text = text.rstrip(" .;,") + r.choice([".", "", ","])
    return text, els


def expected_of(els):
    out = {f: [] for f in FIELDS}
    for e in els:
        for f, v in e.fields.items():
            if f in out:
                out[f].append(v)
    return out


def flatten(refs):
    out = {f: [] for f in FIELDS}
    for ref in refs:
        for f in FIELDS:
            out[f] += ref.get(f, [])
    return out


def entry(r, obs, i):
    text, els = line(r, r.choice([1, 1, 2, 3, 5]))
    style = r.choice(["[1] ", "[1] ", "1. ", "(1) "])
    full = style + text
    refs = obs.call(extract_references_from_string, full, override_kbs_files=KB)
    want = expected_of(els)
    obs.equal(flatten(refs), want, "identifiers", text=full, refs=refs)
    obs.input(full)
    for e in els:
        if any(f in FIELDS for f in e.fields):
            obs.saw("%s:%s" % (e.kind, e.feat[0]))
    obs.saw("refs:%d" % len(refs))


def bibliography(r, obs, i):
    """The identifiers of each of several entries, broken over lines."""
    entries, wants = [], []
    for k in range(1, r.randint(2, 6) + 1):
        while True:
            text, els = line(r, r.choice([1, 2, 3]))
            if not compose.mentions(text, k + 1) and not compose.mentions(text, 1):
                break
        entries.append("[%d] " % k + text)
        wants.append(expected_of(els))
    lines = []
    for e in entries:
        lines += compose.wrap(r, e, 40, 100, first=8) if r.random() < 0.7 else [e]
    if any(x.lstrip()[:1].isdigit() or x.startswith("[") and not any(
            e.startswith(x[:4]) for e in entries) for x in lines):
        lines = entries
    text = "\n".join(lines)
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    for k, want in enumerate(wants, 1):
        mine = [x for x in refs if x.get("linemarker") == [str(k)]]
        obs.equal(flatten(mine), want, "identifiers", text=text, refs=mine)
    obs.input(text)
    obs.saw("bibliography:%d" % len(entries))


# ways in which the characters of a link come out of a document
SCHEMES = {"http://": ["h t t p : / / ", "http :/ /", "ht tp://", "http: //", "h ttp: // ", "http : / / "],
           "ftp://": ["f t p : / / ", "ftp :/ /", "ft p://", "ftp: //", "f tp: // "]}
SUFFIXES = ["html", "shtml", "xml", "txt", "pdf", "ps", "tex", "jpg", "gif", "doc", "php", "asp"]


def broken(r, obs, i):
    """Links with spaces inside, as PDF converters print them, are put together again."""
    scheme = r.choice(sorted(SCHEMES))
    host = r.choice(["www.cern.ch", "example.org", "web.infn.it", "lhc.web.cern.ch"])
    path = "/" + "/".join(r.choice(["docs", "a_b", "page-1", "x", "rec"])
                          for _ in range(r.randint(1, 3)))
    shown = (r.choice(SCHEMES[scheme]) if r.random() < 0.7 else scheme) + host
    shown += path
    want = scheme + host + path
    if r.random() < 0.5:
        ext = r.choice(SUFFIXES)
        shown += r.choice([".%s", ". %s"]) % (
            " ".join(ext) if r.random() < 0.5 else ext)
        want += "." + ext
    text = "[1] A. Smith, " + r.choice(["", gen.phrase(r) + ", ", gen.journal(r).text + ", "])
    text += shown + r.choice([".", ", " + gen.phrase(r) + ".", "; " + gen.phrase(r), ""])
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    obs.equal(flatten(refs)["url"], [want], "broken-link", text=text, refs=refs)
    obs.input(text)
    obs.saw("broken link: " + shown.split(host)[0])


def none(r, obs, i):
    """What is no identifier is not reported as one."""
    what = r.choice(["10.%d" % r.randint(1000, 99999), "doi:10.%d" % r.randint(1000, 99999),
                     "doi:10.%d/" % r.randint(1000, 99999), "www.cern.ch/docs", "doi", "hdl",
                     "ISBN", "ISBN 12-34", "10.%d and %d/34" % (r.randint(1000, 9999),
                                                              r.randint(1, 99)),
                     "%d/%d" % (r.randint(1, 99), r.randint(1, 99)), "http", "1/2.3", "handle 12"])
    text = "[1] A. Smith, " + gen.phrase(r) + ", " + what + ", " + gen.phrase(r) + "."
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    obs.equal(flatten(refs), {f: [] for f in FIELDS}, "made-up-identifier", text=text, refs=refs)
    obs.input(text)
    obs.saw("no identifier")


KINDS = {
    "entry": (6000, 80000, entry),
    "broken": (600, 8000, broken),
    "none": (300, 3000, none),
    "bibliography": (1200, 15000, bibliography),
}
