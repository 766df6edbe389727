"""Ground-truth generators.

Every generator returns text together with what a reader of that text would
say it cites.  Nothing in here is derived from the implementation's output:
the expected values are produced at the same time as the text, from the same
choices.
"""

import random

# --------------------------------------------------------------------------
# small journal knowledge base handed to the library as an override.  It is
# spelled so that no entry is a prefix of another one by accident (except the
# deliberate long/short pairs) and none collides with the other default KBs.
SMALL_KB = [
    ("PHYS REV", "Phys. Rev."),
    ("PHYSICAL REVIEW", "Phys. Rev."),
    ("PHYS REV LETT", "Phys. Rev. Lett."),
    ("NUCL PHYS", "Nucl. Phys."),
    ("NUCL PHYS PROC SUPPL", "Nucl.Phys.Proc.Suppl."),
    ("J PHYS A", "J. Phys.;A"),
    ("PHYS LETT B", "Phys. Lett.;B"),
    ("ZETA LETT", "Zeta Lett."),
    ("ANN MODEL SCI", "Ann. Model Sci."),
    ("EUROPHYS BULL", "Europhys. Bull."),
    ("J HIGH ENERGY PHYS", "JHEP"),
    ("JHEP", "JHEP"),
    ("JCAP", "JCAP"),
]

# title spellings a citation may use -> (standard title, series letter)
TITLE_FORMS = {
    "Phys. Rev.": ("Phys. Rev.", ""),
    "Phys Rev": ("Phys. Rev.", ""),
    "Physical Review": ("Phys. Rev.", ""),
    "PHYS. REV.": ("Phys. Rev.", ""),
    "Phys. Rev. Lett.": ("Phys. Rev. Lett.", ""),
    "Phys.Rev.Lett.": ("Phys. Rev. Lett.", ""),
    "Nucl. Phys.": ("Nucl. Phys.", ""),
    "Nucl.Phys.": ("Nucl. Phys.", ""),
    "J. Phys. A": ("J. Phys.", "A"),
    "J.Phys. A": ("J. Phys.", "A"),
    "Phys. Lett. B": ("Phys. Lett.", "B"),
    "Phys Lett B": ("Phys. Lett.", "B"),
    "Zeta Lett.": ("Zeta Lett.", ""),
    "zeta lett.": ("Zeta Lett.", ""),
    "Ann. Model Sci.": ("Ann. Model Sci.", ""),
    "Ann Model Sci": ("Ann. Model Sci.", ""),
    "Europhys. Bull.": ("Europhys. Bull.", ""),
}
SPECIAL_FORMS = ["JHEP", "JCAP", "J. High Energy Phys."]

SURNAMES = (
    "Smith Jones Brown Witten Maldacena Polyakov Gross Wilczek Weinberg "
    "Glashow Salam Higgs Englert Brout Guralnik Hagen Kibble Nambu Goldstone "
    "Veneziano Virasoro Shapiro Ramond Neveu Schwarz Scherk Green Hull "
    "Townsend Strominger Vafa Seiberg Intriligator Shenker Fischler Susskind "
    "Banks Klebanov Gubser Fournier Novak Kowalski Horvath Petrov Ivanov "
    "Tanaka Suzuki Yamamoto Kobayashi Maskawa Cabibbo Okubo Zweig Feynman"
).split()
# safe lower-case words: no journal, publisher, author, collaboration or
# section-title vocabulary, and none of them ends with a hyphen
WORDS = (
    "remarks about several curious mechanisms underlying broken gauge "
    "symmetry within weakly coupled lattice models which were introduced "
    "during recent discussions concerning anomalous decays heavy quark "
    "spectra renormalised couplings topological defects thermal inflation "
    "supersymmetric vacua holographic duals scattering amplitudes conformal "
    "blocks vortices monopoles instantons domain walls neutrino masses"
).split()

MONTHS = ["January", "March", "May", "July", "September", "November"]


def pick(r, seq):
    return seq[r.randrange(len(seq))]


def phrase(r, lo=2, hi=7):
    return " ".join(pick(r, WORDS) for _ in range(r.randint(lo, hi)))


def roman(n):
    out = ""
    for v, c in ((10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")):
        while n >= v:
            out += c
            n -= v
    return out


class El:
    """A citation element: its text, its kind, and the fields it must yield."""

    __slots__ = ("kind", "text", "fields", "feat")

    def __init__(self, kind, text, fields, feat=()):
        self.kind, self.text, self.fields, self.feat = kind, text, fields, feat


# --------------------------------------------------------------------------
# journals

NUMERATION = {
    "v,p(y)": "{v}, {p} ({y})",
    "v(y)p": "{v} ({y}) {p}",
    "v p (y)": "{v} {p} ({y})",
    "v:p,y": "{v}:{p},{y}",
    "v(y)p-tight": "{v}({y}){p}",
    "v,p,y": "{v}, {p}, {y}",
    "v,y,p": "{v}, {y}, {p}",
    "(y)v,p": "({y}) {v}, {p}",
    "y,v,p": "{y}, {v}, {p}",
    "vol-p": "vol. {v}, p. {p} ({y})",
    "Vol-pp": "Vol. {v} ({y}) pp. {p}",
    "no": "{v} no. 3, {p} ({y})",
    "no-y": "{v}, no. 4 ({y}) {p}",
    "issue": "{v}(3), {p} ({y})",
    "issue-y": "{v}(3) ({y}) {p}",
    "FS": "{v} [FS3] ({y}) {p}",
    "month": "{v}, {p} ({m} {y})",
}


def number(r, hi_digits=4):
    """Boundary-heavy positive integers."""
    c = r.randrange(6)
    if c == 0:
        return r.randint(1, 9)
    if c == 1:
        return r.randint(10, 99)
    if c == 2:
        return r.randint(100, 999)
    if c == 3:
        return pick(r, [1, 9, 10, 11, 19, 20, 99, 100, 101, 199, 200, 999, 1000])
    if c == 4:
        return r.randint(1, 120)
    return r.randint(1, 10**hi_digits - 1)


def year(r):
    return pick(
        r,
        [
            r.randint(1900, 2099),
            r.randint(1950, 2024),
            r.randint(1990, 2024),
            pick(r, [1900, 1949, 1950, 1989, 1999, 2000, 2001, 2009, 2010, 2019, 2020]),
        ],
    )


def volume(r, series, allow_roman=True):
    """-> (text, expected volume, feature)."""
    n = number(r)
    while 1900 <= n <= 2099:
        n = number(r)
    kinds = ["n"] * 4 + ["Ln", "L n", "nL", "Ln", "L n", "nL", "ln", "nl"]
    if allow_roman and not series:
        kinds += ["roman", "roman"]
    k = pick(r, kinds)
    letter = pick(r, "ABCDEFGH")
    if k == "ln":
        return f"{letter.lower()}{n}", f"{letter}{n}", k
    if k == "nl":
        return f"{n}{letter.lower()}", f"{letter}{n}", k
    if k == "n":
        return str(n), series + str(n), k
    if k == "Ln":
        return f"{letter}{n}", f"{letter}{n}", k
    if k == "L n":
        return f"{letter} {n}", f"{letter}{n}", k
    if k == "nL":
        return f"{n}{letter}", f"{letter}{n}", k
    n = r.randint(2, 39)
    while len(roman(n)) < 2:
        n = r.randint(2, 39)
    t = roman(n)
    if r.random() < 0.3:
        t = t.lower()
    return t, str(n), k


def page(r, ranges=True):
    """-> (text, expected page, feature)."""
    p = number(r, 6)
    while 1900 <= p <= 2099:
        p = number(r, 6)
    kinds = ["n", "n", "L", "R", "c", "jinst"] + (["range"] if ranges else [])
    k = pick(r, kinds)
    if k == "n":
        return str(p), str(p), k
    if k == "L":
        return f"L{p}", f"L{p}", k
    if k == "R":
        return f"R{p}", f"R{p}", k
    if k == "c":
        return f"{p}c", f"{p}c", k
    if k == "jinst":
        t = "P%05d" % p
        return t, t, k
    q = p + r.randint(1, 60)
    while 1900 <= q <= 2099 or 1900 <= p <= 2099:
        p += 300
        q = p + r.randint(1, 60)
    return f"{p}-{q}", f"{p}-{q}", k


def journal(r, forms=None, fmt=None):
    forms = forms or TITLE_FORMS
    text_title = pick(r, list(forms))
    std, series = forms[text_title]
    fk = fmt or pick(r, list(NUMERATION))
    vt, ev, vk = volume(r, series)
    # a bare roman volume followed by a page range reads as an ambiguous
    # "VI 10-20"; real citations do not print it without a year in between
    pt, ep, pk = page(r, ranges=(vk != "roman"))
    if fk in ("vol-p", "Vol-pp") and pk == "jinst":
        pt, ep, pk = "77", "77", "n"
    y = year(r)
    num = NUMERATION[fk].format(v=vt, p=pt, y=y, m=pick(r, MONTHS))
    sep = "" if (r.random() < 0.1 and text_title.endswith(".") and vt[0].isdigit()
                 and not fk.startswith(("(", "y", "v(", "V", "vol"))) else " "
    if fk in ("vol-p", "Vol-pp"):
        sep = pick(r, [" ", ", "])
    return El(
        "JOURNAL",
        text_title + sep + num,
        {
            "journal_title": std,
            "journal_volume": ev,
            "journal_year": str(y),
            "journal_page": ep,
        },
        (fk, vk, pk, std),
    )


def special_journal(r):
    """JHEP/JCAP: year-prefixed two-digit volumes and three-digit pages."""
    title = pick(r, SPECIAL_FORMS)
    std = "JCAP" if title == "JCAP" else "JHEP"
    y = year(r)
    if r.random() < 0.25:
        # volume already in yymm form
        v = "%02d%02d" % (r.randint(0, 24), r.randint(1, 12))
        vt, ev, vk = v, v, "yymm"
        y = 2000 + int(v[:2])
    else:
        m = r.randint(1, 12)
        vt = pick(r, ["%02d" % m, str(m)])
        ev, vk = str(y)[-2:] + "%02d" % m, "m"
    p = number(r, 4)
    while 1900 <= p <= 2099:
        p = number(r, 4)
    pt = pick(r, ["%d" % p, "%03d" % p, "%d" % p, "%03d" % p, "%04d" % p])
    fk = pick(r, ["v(y)p", "v,p(y)", "v(y)p-tight"])
    return El(
        "JOURNAL",
        title + " " + NUMERATION[fk].format(v=vt, p=pt, y=y, m=""),
        {
            "journal_title": std,
            "journal_volume": ev,
            "journal_year": str(y),
            "journal_page": "%03d" % p,
        },
        ("special", vk, fk, std),
    )


# --------------------------------------------------------------------------
# identifiers

DOI_SUFFIX_CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def doi(r):
    prefix = "10." + "".join(pick(r, "123456789") for _ in range(r.randint(3, 7)))
    if r.random() < 0.1:
        prefix += ".%d" % r.randint(1, 99)
    shape = r.randrange(6)

    def al(n):
        return "".join(pick(r, DOI_SUFFIX_CHARS) for _ in range(n))

    if shape == 0:
        suffix = "PhysRev%s.%d.%d" % (pick(r, ["Lett", "D", "C"]), number(r), number(r))
    elif shape == 1:
        suffix = "%s%d/%02d/%03d" % (
            "1126-6708/", r.randint(1997, 2010), r.randint(1, 12), r.randint(1, 999))
    elif shape == 2:
        suffix = "S%04d-%04d(%02d)%05d-%d" % (
            r.randint(0, 9999), r.randint(0, 9999), r.randint(0, 99),
            r.randint(0, 99999), r.randint(0, 9))
    elif shape == 3:
        suffix = "s%d-%03d-%04d-%d" % (
            r.randint(10000, 10999), r.randint(0, 30), r.randint(0, 9999), r.randint(0, 9))
    elif shape == 4:
        suffix = "j.%s.%d.%02d.%03d" % (
            al(r.randint(2, 8)), r.randint(1990, 2024), r.randint(1, 12), r.randint(1, 400))
    else:
        suffix = al(r.randint(2, 14))
        if r.random() < 0.5:
            suffix += pick(r, ["_", ":", "-", "/", "."]) + al(r.randint(1, 6))
        elif r.random() < 0.2:
            suffix += "(" + al(r.randint(2, 5)) + ")"
    d = prefix + "/" + suffix
    form = pick(r, ["doi:", "doi: ", "DOI:", "DOI ", "doi ", "bare", "http", "https",
                    "dx", "dxs", "(doi)", "enc"])
    if form == "bare":
        t = d
    elif form == "http":
        t = "http://doi.org/" + d
    elif form == "https":
        t = "https://doi.org/" + d
    elif form == "dx":
        t = "http://dx.doi.org/" + d
    elif form == "dxs":
        t = "https://dx.doi.org/" + d
    elif form == "(doi)":
        t = "(doi) " + d
    elif form == "enc":
        if "/" in suffix or "%" in suffix:
            t, form = d, "bare"
        else:
            t = "https://doi.org/" + prefix + pick(r, ["%2F", "%2f"]) + suffix
    else:
        t = form + d
    return El("DOI", t, {"doi": "doi:" + d}, (form, shape))


def handle(r):
    h = "%d/%s" % (number(r), pick(r, ["%d" % r.randint(1, 10**6),
                                        "abc.%d" % number(r), "%d-x" % number(r)]))
    form = pick(r, ["hdl:", "HDL:", "http://hdl.handle.net/", "https://hdl.handle.net/"])
    return El("HDL", form + h, {"hdl": "hdl:" + h}, (form,))


def url(r):
    host = pick(r, ["www.cern.ch", "example.org", "web.infn.it", "data-server.example.com",
                    "lhc.web.cern.ch", "sub.dom.ain.co.uk"])
    scheme = pick(r, ["http", "https", "ftp", "HTTP"]) if r.random() < 0.2 else pick(
        r, ["http", "https"])
    u = scheme + "://" + host
    if r.random() < 0.15:
        u += ":%d" % r.randint(1, 65535)
    n = r.randrange(4)
    for _ in range(n):
        u += "/" + pick(r, ["docs", "a_b", "~user", "page-1", "item.html", "x", "v2.0",
                            "2012", "rec", "index.php"])
    if n and r.random() < 0.25:
        u += "?id=%d" % number(r)
        if r.random() < 0.5:
            u += "&lang=en"
    elif r.random() < 0.25:
        u += "/"
    elif n and r.random() < 0.15:
        u += pick(r, [":b", "+c", "@d", "%20e", "~f"])
    if (n or u[-1] == "/") and r.random() < 0.12:
        u += pick(r, ["#sec-2", "#", "#page=3", "#a.b"])
    return El("URL", u, {"url": u}, (scheme.lower(), n))


def html_url(r):
    u = url(r)
    d = phrase(r, 1, 4)
    q = pick(r, ['"', "'"])
    return El("URL", f"<a href={q}{u.text}{q}>{d}</a>", {"url": u.text, "urldesc": d},
              ("html",))


def isbn(r):
    k = r.randrange(4)
    if k == 0:
        v = "978" + "".join(pick(r, "0123456789") for _ in range(10))
    elif k == 1:
        v = "".join(pick(r, "0123456789") for _ in range(9)) + pick(r, "0123456789X")
    elif k == 2:
        v = "978-%d-%03d-%05d-%d" % (r.randint(0, 9), r.randint(0, 999),
                                     r.randint(0, 99999), r.randint(0, 9))
    else:
        v = "%d-%03d-%05d-%s" % (r.randint(0, 9), r.randint(0, 999),
                                 r.randint(0, 99999), pick(r, "0123456789X"))
    form = pick(r, ["ISBN ", "ISBN: ", "ISBN:", "ISBN-13: ", "ISBN-10: ", "ISBN-",
                    "International Standard Book Number "])
    return El("ISBN", form + v, {"isbn": v}, (form, k))


OLD_ARXIV = ["astro-ph", "cond-mat", "gr-qc", "hep-ex", "hep-lat", "hep-ph", "hep-th",
             "math-ph", "nucl-ex", "nucl-th", "quant-ph", "alg-geom", "dg-ga", "q-alg",
             "solv-int", "chao-dyn", "physics", "math", "cs", "nlin", "chem-ph", "atom-ph",
             "acc-ph", "funct-an"]
CATS = ["hep-ph", "hep-th", "astro-ph.CO", "physics.ins-det", "gr-qc", "quant-ph",
        "cond-mat.str-el", "math.AG"]


def arxiv(r):
    """-> report number element in the arXiv class."""
    k = pick(r, ["new4", "new5", "old", "old", "bare4", "bare5", "catchup"])
    if k in ("new4", "bare4"):
        yy, mm = r.randint(7, 14), r.randint(1, 12)
        num = "%02d%02d.%04d" % (yy, mm, r.randint(1, 9999))
    elif k in ("new5", "bare5"):
        yy, mm = r.randint(15, 24), r.randint(1, 12)
        num = "%02d%02d.%05d" % (yy, mm, r.randint(1, 99999))
    else:
        yy = pick(r, list(range(91, 100)) + list(range(0, 8)))
        mm = r.randint(1, 12)
        num = "%02d%02d%03d" % (yy, mm, r.randint(1, 999))
    if k == "old":
        cat = pick(r, OLD_ARXIV)
        sep = pick(r, ["/", "/", "/", "-", ":", " "])
        ver = pick(r, ["", "", "", "v1", "v12"])
        t = cat + sep + num + ver
        if r.random() < 0.15:
            t = "[" + cat + "/" + num + "]"
        return El("ARXIV", t, {"reportnumber": cat + "/" + num}, (k, cat))
    if k == "catchup":
        cat = pick(r, ["hep-ph", "hep-th", "astro-ph", "gr-qc", "quant-ph"])
        return El("ARXIV", f"arXiv:{num} [{cat}]", {"reportnumber": cat + "/" + num},
                  (k, cat))
    ver = pick(r, ["", "", "", "v1", "v2", "v9"])
    cat = pick(r, CATS) if r.random() < 0.35 else ""
    pre = "" if k.startswith("bare") else pick(
        r, ["arXiv:", "arXiv:", "arXiv: ", "arXiv ", "ARXIV:", "arxiv:"])
    t = pre + num + ver + (f" [{cat}]" if cat else "")
    exp = "arXiv:" + num + (f" [{cat}]" if cat else "")
    return El("ARXIV", t, {"reportnumber": exp}, (k, bool(cat), bool(ver)))


def report(r):
    """-> experiment / laboratory report numbers."""
    k = r.randrange(6)
    y = r.randint(1991, 2024)
    if k == 0:
        v = "CERN-PH-EP-%d-%03d" % (y, r.randint(1, 399))
    elif k == 1:
        v = "ATLAS-CONF-%d-%03d" % (r.randint(2010, 2024), r.randint(1, 170))
        t = v if r.random() < 0.7 else v.replace("ATLAS", "ATL")
        return El("REPORTNUMBER", t, {"reportnumber": v}, ("atlas-post",))
    elif k == 2:
        c = "%d-%03d" % (r.randint(2000, 2009), r.randint(1, 170))
        t = pick(r, ["ATL-CONF-", "ATLAS-CONF-"]) + c
        return El("REPORTNUMBER", t, {"reportnumber": "ATL-CONF-" + c}, ("atlas-pre",))
    elif k == 3:
        v = "CERN-TH-%d-%03d" % (y, r.randint(1, 399))
    elif k == 4:
        v = "CERN-LHCC-%d-%03d" % (y, r.randint(1, 99))
    else:
        c = "%02d-%03d-E" % (r.randint(90, 99), r.randint(1, 399))
        return El("REPORTNUMBER", pick(r, ["FERMILAB-PUB-", "FERMILAB-Pub-"]) + c,
                  {"reportnumber": "FERMILAB-Pub-" + c}, ("fermilab",))
    return El("REPORTNUMBER", v, {"reportnumber": v}, ("kb", k))


def author_group(r):
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    names = []
    for _ in range(n):
        ini = " ".join(pick(r, "ABCDEFGHJKLMNPRSTW") + "." for _ in range(r.randint(1, 3)))
        names.append(ini + " " + pick(r, SURNAMES))
    etal = r.random() < 0.2
    if etal:
        t = ", ".join(names) + " et al."
    elif n > 1 and r.random() < 0.7:
        t = ", ".join(names[:-1]) + pick(r, [" and ", ", and "]) + names[-1]
    else:
        t = ", ".join(names)
    return El("AUTH", t, {"author": t}, (n, etal))


def quoted(r):
    t = pick(r, WORDS).capitalize() + " " + phrase(r, 1, 8)
    return El("QUOTED", '"' + t + '"', {"title": t}, ())


PUBLISHERS = {"Springer": "Springer", "Elsevier": "Elsevier", "North-Holland": "North-Holland",
              "North Holland": "North-Holland"}


def publisher(r):
    t = pick(r, list(PUBLISHERS))
    return El("PUBLISHER", t, {"publisher": PUBLISHERS[t]}, (t,))


COLLABS = ["ATLAS Collaboration", "CMS Collaboration", "ALICE Collaboration", "CDF Collaboration",
           "Belle Collaboration", "OPAL Collaboration", "SLD Collaboration"]


def collaboration(r):
    t = pick(r, COLLABS)
    return El("COLLABORATION", t, {"collaboration": t}, (t,))
