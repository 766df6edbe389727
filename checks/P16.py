"""The keys and links of a PDF are given to the references they are printed at."""

import os
import shutil
import tempfile

import compose
import document
import gen
import mkpdf
from refextract import extract_references_from_file, extract_references_from_string

PROPERTY = "P16"
LEVEL = "exploration"
RULE = (
    "PDFs with one or two columns and one to twelve pages, with running text and 1 to 60 entries; "
    "destinations cite.KEY at the entries (in four ways of storing them, among other "
    "destinations), links at any line of an entry, in the running text and inside the document. "
    "Keys and links of every reference are compared with those of its entry, everything else with "
    "the references of the text. Some documents have entries which give several references, or "
    "more or fewer keys than entries: nothing may be added to them. Non-trivial: keys are returned"
)
ASSUMPTIONS = [
    "two-column documents have at least three entries which start in the right column",
    "the links of the last entry are on the page it starts on, and no other links follow there",
]
KB = {"journals": gen.SMALL_KB}
CPU_LIMIT = 120
WIDTH = 6000
RIGHT = 3050


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def key(r, seen, store):
    while True:
        k = r.choice([
            "%s:%d%s" % (r.choice(gen.SURNAMES), gen.year(r), r.choice(["ab", "xyz", "q"])),
            "%s%02d" % (r.choice(gen.SURNAMES).lower(), r.randint(0, 99)),
            "ref%d" % r.randint(1, 999), "Bib-%d" % r.randint(1, 999),
            "cite.%d" % r.randint(1, 999), "a_b+c.%d" % r.randint(1, 99),
            "%d" % r.randint(1, 999), "PhysRevD.%d.%d" % (r.randint(1, 99), r.randint(1, 9999)),
        ] + ([] if store == "dict" else ["key (%d)" % r.randint(1, 99), "two words %d" %
                                         r.randint(1, 99), "x/y/%d" % r.randint(1, 99)]))
        if k not in seen:
            seen.add(k)
            return k


def uri(r):
    return r.choice([
        "http://dx.doi.org/10.%d/x%d" % (r.randint(1000, 9999), r.randint(1, 99999)),
        "https://doi.org/10.%d/S%d(%02d)" % (r.randint(1000, 9999), r.randint(1, 99999),
                                            r.randint(1, 99)),
        "http://arxiv.org/abs/%04d.%05d" % (r.randint(701, 2412), r.randint(1, 99999)),
        "https://www.example.org/~a/b?c=%d&d=e#f" % r.randint(1, 999),
        "mailto:a%d@b.ch" % r.randint(1, 99), "ftp://example.org/%d.ps" % r.randint(1, 99),
        "http://a.b/%d" % r.randint(1, 9),
    ])


class Column:
    """Lines are put below each other, from column to column and page to page."""

    def __init__(self, r, two):
        self.pages = [[]]
        self.two = two
        self.lead = r.choice([10, 11, 12, 13.5])
        self.x = [r.choice([40, 72.27]), RIGHT + r.choice([0, 12.5])]
        self.bottom = r.choice([60, 300, 500])
        self.col, self.y = 0, 740

    def put(self, text):
        if self.y < self.bottom:
            self.y = 740
            if self.two and self.col == 0:
                self.col = 1
            else:
                self.col = 0
                self.pages.append([])
        x, y, p = self.x[self.col], self.y, len(self.pages) - 1
        self.pages[-1].append((x, y, text))
        self.y -= self.lead
        return p, self.col, x, y


def build(r, obs, i):
    two = r.random() < 0.4
    store = r.choice(["tree", "tree", "kids", "dict", "D"])
    style = r.choice(["[%d] ", "[%d] ", "%d. "])
    n = r.choice([1, 2, 3, 5, 8, 12, 20, 35, 60])
    if two:
        n = max(n, 12)
    what = r.choice(["exact"] * 6 + ["split", "key missing", "key too many", "no keys"])
    if two and n < 20:
        what = "exact"
    doc = Column(r, two)
    body = []
    for x in document.prose(r, r.randint(2, 90)):
        doc.put(x)
        body.append(x)
    title = r.choice(["References", "REFERENCES"])
    first = doc.put(title)
    body.append(title)
    annots, internal, dests, entries, seen = [], [], [], [], set()
    for p, lines in enumerate(doc.pages):
        for x, y, t in lines[:-1]:
            if r.random() < 0.05:
                annots.append((p, (x + 100, y - 2, x + 150, y + 7), uri(r)))
            if r.random() < 0.05:
                internal.append((p, (x + 10, y - 2, x + 50, y + 7), "cite.ref1"))
    pool = [uri(r) for _ in range(8)]
    starts, printed = [], []
    split_at = r.randrange(n)
    for k in range(1, n + 1):
        # one reference
        for _ in range(200):
            e = document.entry(r, k)
            if k == split_at + 1 and what == "split":
                e = "A. Smith, Phys. Rev. %d, %d (%d); B. Jones, Nucl. Phys. B%d, %d (%d)." % (
                    r.randint(100, 199), r.randint(1000, 1899), gen.year(r),
                    r.randint(200, 299), r.randint(1000, 1899), gen.year(r))
            e = style % k + e
            one = extract_references_from_string(e, override_kbs_files=KB)
            if len(one) == (2 if what == "split" and k == split_at + 1 else 1):
                break
        w = document.wrap(r, e, 50, 85, first=12)
        if k == n and doc.y - doc.lead * len(w) < doc.bottom and not (two and doc.col == 0):
            doc.y = 0  # the last entry is on one page
        links = []
        urls = [u for ref in one for u in ref.get("url", ())]
        for j, line in enumerate(w):
            p, col, x, y = doc.put(line)
            body.append(line)
            if j == 0:
                top = y + r.choice([8, 9, 12 if doc.lead > 12 else 9])
                starts.append((p, col))
                if not (what == "key missing" and k == split_at + 1) and what != "no keys":
                    kk = key(r, seen, store)
                    printed.append(kk)
                    dests.append(("cite." + kk, p, x + r.choice([0, -5.5]) * (not two), top))
            while r.random() < 0.3:
                u = r.choice([uri(r), r.choice(pool)] + urls)
                # not higher than the destination of the entry
                h = r.choice([6, 7.5, top - y if j == 0 else 7])
                wide = r.choice([5, 40, 300, 3100 if not two else 300])
                links.append(u)
                annots.append((p, (x + wide, y - 2, x + wide + 20, y + h), u))
            if r.random() < 0.1:
                internal.append((p, (x + 10, y - 2, x + 50, y + 7), "page.1"))
        entries.append((e, links))
    if what == "key too many":
        p = len(doc.pages) - 1
        kk = key(r, seen, store)
        dests.append(("cite." + kk, p, doc.x[doc.col], doc.y + 3))
    for name in r.sample(["section.1", "equation.2.3", "page.1", "Item.3", "figure.caption.4",
                          "cite", "Doc-Start", "xcite.y", "Cite.z", "section*.1"], r.randint(0, 6)):
        p = r.randrange(len(doc.pages))
        dests.append((name, p, r.choice(doc.x), r.choice([740, 333])))
    r.shuffle(annots)
    if two and sum(1 for s in starts if s[1] == 1) < 3:
        obs.saw("not a two-column document")
        return
    if len({d[0] for d in dests}) != len(dests):
        return
    data = mkpdf.make_pdf(doc.pages, dests, annots, width=WIDTH, store=store, internal=internal)
    want = obs.call(extract_references_from_string, "\n".join(body), is_only_references=False,
                    override_kbs_files=KB)
    tmp = tempfile.mkdtemp(prefix="pdf_")
    try:
        path = os.path.join(tmp, "doc.pdf")
        with open(path, "wb") as f:
            f.write(data)
        refs = obs.call(extract_references_from_file, path, override_kbs_files=KB)
    finally:
        shutil.rmtree(tmp)
    detail = {"what": what, "two": two, "store": store, "n": n}
    obs.equal(len(refs), len(want), "number-of-references", **detail)
    if what != "exact":
        obs.equal(refs, want, "keys-or-links-of-other-references", **detail)
        obs.saw(what)
        return
    obs.equal(len(refs), n, "number-of-references", **detail)
    for k, (ref, ref0, (e, links)) in enumerate(zip(refs, want, entries)):
        obs.equal({a: b for a, b in ref.items() if a not in ("url", "texkey")},
                  {a: b for a, b in ref0.items() if a != "url"}, "other-fields", entry=k, **detail)
        obs.equal(ref.get("texkey"), [printed[k]], "key-of-the-reference", entry=k,
                  around=printed[max(0, k - 2):k + 3], **detail)
        own = ref0.get("url", [])
        got = ref.get("url", [])
        obs.equal(got[:len(set(own))], list(dict.fromkeys(own)), "links-of-the-text", entry=k,
                  **detail)
        obs.equal(sorted(got), sorted(set(own) | set(links)), "links-of-the-reference", entry=k,
                  text=e, **detail)
        obs.saw("links:%d" % min(4, len(set(links))))
        if set(own) & set(links):
            obs.saw("link printed and annotated")
        if len(set(links)) < len(links):
            obs.saw("link annotated twice")
    obs.input(printed, [x[1] for x in entries])
    obs.saw("columns:%d" % (1 + two), "store:" + store, "pages:%d" % min(len(doc.pages), 12),
            "entries:%d" % n)
    if len({s[0] for s in starts}) > 1:
        obs.saw("entries on several pages")


KINDS = {
    "documents": (350, 5000, build),
}
