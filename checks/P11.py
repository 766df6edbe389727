"""The reference section of a full text is found, from its first to its last entry."""

import os
import tempfile

import compose
import document
import gen
from refextract import extract_references_from_file, extract_references_from_string

PROPERTY = "P11"
LEVEL = "exploration"
RULE = (
    "documents with running text, a reference section (20 titles, or none; 1 to 60 numbered "
    "entries in the bracket, dot and parenthesis styles) and possibly an appendix, "
    "acknowledgements or captions behind it, as one run of lines or as 4 to 12 pages with running "
    "headers, footers and page numbers, given as a string and as a plain text file; the entries "
    "of the result are compared with the printed ones. Non-trivial: every case"
)
ASSUMPTIONS = [
    "the reference section is not on the first page when there are headers or footers",
    "running headers and footers have as many words on every page, apart from page numbers",
    "no line of running text is itself a title of a reference section (see the known finding) or a "
    "numbered entry, apart from numbered headings and a table of contents",
]
KB = {"journals": gen.SMALL_KB}
STYLES = {"[n]": "[%d] ", "n.": "%d. ", "(n)": "(%d) ", "[n]tight": "[%d]"}


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def section(r, style, n, lookalike=1):
    entries, lines = [], []
    indent = r.choice(["", "", "", " ", "   ", "\t"])
    for k in range(1, n + 1):
        e = (STYLES[style] % k) + document.entry(r, k)
        w = document.wrap(r, e, first=12)
        if lookalike <= k < n and r.random() < 0.06:
            # not the end of the section: the next number follows
            w.append(r.choice(["Fig. 3 of ", "Table 2 and ", "Appendix B of ", "Figure 7: ",
                               "appendix of ", "Acknowledgements in ", "Summary in ", "Index of "])
                     + gen.phrase(r, 1, 4))
            e += " " + w[-1]
        entries.append(e)
        lines += [indent + x for x in w[:1]] + w[1:]
    return entries, lines


def judge(r, obs, lines, entries, where, key="reference-section", split=None, **detail):
    """``split``: the index of an entry with something else in it, whose start is compared."""
    text = compose.join(r, obs, lines)
    expected = [([str(k)], [e]) for k, e in enumerate(entries, 1)]
    results = {"string": obs.call(extract_references_from_string, text, is_only_references=False,
                                  override_kbs_files=KB)}
    if r.random() < 0.4:
        fd, path = tempfile.mkstemp(suffix=".txt")
        with os.fdopen(fd, "w", encoding="utf-8") as f:
            f.write(text + "\n")
        results["file"] = obs.call(extract_references_from_file, path, override_kbs_files=KB)
        os.remove(path)
    for how, refs in results.items():
        got = []
        for ref in refs:
            item = (ref.get("linemarker"), ref["raw_ref"])
            if not got or got[-1] != item:
                got.append(item)
        if split is not None and len(got) > split and got[split][0] == expected[split][0]:
            whole = got[split][1][0]
            if whole.startswith(entries[split]):
                got[split] = expected[split]
                obs.saw("entry with something else in it")
        if got != expected:
            first = next((j for j, (a, b) in enumerate(zip(got, expected)) if a != b),
                         min(len(got), len(expected)))
            at = max([0] + [j for j, x in enumerate(lines) if x[:30] in expected[0][1][0]])
            obs.fail(key, how=how, entry=first + 1, numbers=(
                len(got), len(expected)), got=got[first:first + 2],
                expected=expected[first:first + 2], around=lines[max(0, at - 5):at + 30], **detail)
        obs.events += len(expected)
        obs.saw("given as " + how)
    if "file" in results:
        obs.equal(results["file"], results["string"], "file-differs-from-string", text=text[:2000])
    obs.input(text)
    obs.saw(where)


def tail(r):
    """What follows the references, and whether."""
    if r.random() < 0.5:
        return [], "nothing behind"
    k = r.random()
    if k < 0.12:
        # the scales of a figure
        rows, gap = [], blank(r, [0, 0, 1, 2])
        for _ in range(r.randint(4, 9)):
            rows += [r.choice([
                " ".join("%.1f" % (j / 10) for j in range(r.randint(12, 20))),
                " ".join("%+d.0" % j for j in range(-4, r.randint(5, 9))),
                " ".join(str(j * 10) for j in range(1, r.randint(8, 12)))])] + gap
        return rows + document.prose(r, r.randint(0, 20)), "behind:scales of a figure"
    if k < 0.24:
        t = r.choice(["Prepared using AAS LATEX macros v5.2",
                      "This paper has been produced using %s" % gen.phrase(r),
                      "Created with the %s LATEX style" % gen.phrase(r, 1, 3)])
        return [t] + document.prose(r, r.randint(0, 20)), "behind:closing words"
    t = r.choice(document.AFTER)
    return [t] + document.prose(r, r.randint(1, 40)), "behind:" + t


def blank(r, gap):
    return [""] * r.choice(gap)


def flat(r, obs, i):
    style = r.choice(list(STYLES))
    title = r.choice(document.TITLES)
    n = r.choice([1, 2, 3, 5, 12, 30, 60])
    entries, lines = section(r, style, n)
    after, what = tail(r)
    doc = document.prose(r, r.randint(0, 80)) + blank(r, [0, 1, 2]) + [title] + blank(
        r, [0, 0, 1]) + lines + blank(r, [0, 1, 2]) + after
    judge(r, obs, doc, entries, "title:" + title, title=title, style=style, what=what)
    obs.saw(what)


def same_line(r, obs, i):
    """The title and the first entry on one line."""
    title = r.choice(["References", "REFERENCES", "Bibliography"])
    entries, lines = section(r, "[n]", r.choice([2, 5, 12]), lookalike=2)
    lines[0] = title + " " + lines[0]
    after, what = tail(r)
    doc = document.prose(r, r.randint(1, 60)) + lines + after
    judge(r, obs, doc, entries, "title on the line of the first entry", title=title, what=what)


def untitled(r, obs, i):
    style = r.choice(["[n]", "[n]", "n."])
    entries, lines = [], []
    n = r.choice([1, 2, 5, 12, 30])
    # an entry in which a line starts with the number of the first one
    own = r.choice([n - 1, n, n]) if n > 2 and r.random() < 0.4 else None
    for k in range(1, n + 1):
        e = (STYLES[style] % k) + document.entry(r, k)
        w = document.wrap(r, e, first=12)
        w = w if len(w) < 8 else [e]
        if k == own:
            w += [(STYLES[style] % 1) + "on " + gen.phrase(r)] + [gen.phrase(r) + "," for _ in range(
                r.randint(5, 9))] + ["and so on."]
            w[1:] = ["once " + x if document.LOOKALIKE.match(x) and x[0].isalpha() else x
                     for x in w[1:]]
            e = " ".join(w)
            obs.saw("[1] inside an entry")
        entries.append(e)
        lines += w
    if len(entries) == 1:
        lines = entries[:]
    doc = document.prose(r, r.randint(1, 60)) + lines
    judge(r, obs, doc, entries, "no title, " + style, style=style)


def contents(r, obs, i):
    """A table of contents and numbered headings; which mention the title as well."""
    style = r.choice(list(STYLES))
    title = r.choice(["References", "REFERENCES", "Bibliography"])
    entries, lines = section(r, style, r.choice([2, 5, 12, 30]))
    number = r.choice(["%d. ", "%d ", "%d.1 ", "Section %d: "])
    heads = ["Introduction"] + [gen.phrase(r, 1, 3).capitalize() for _ in range(r.randint(1, 4))]
    bare = i % 12 == 0
    dots = r.choice([" %d", " . . . . %d", " ...... %d", "\t%d"])
    doc = [gen.phrase(r).title(), "", "Contents"]
    for k, h in enumerate(heads, 1):
        doc.append(number % k + h + dots % (2 * k))
    if bare:
        # followed by the first numbered heading
        doc += [title, "", "1. Introduction"] + document.prose(r, 12)
    else:
        doc += [title + dots % 20, ""] * r.choice([0, 1, 1])
        for k, h in enumerate(heads, 1):
            doc += [number % k + h] + document.prose(r, r.randint(1, 20))
    after, what = tail(r)
    doc += blank(r, [0, 1]) + [title] + blank(r, [0, 0, 1]) + lines + after
    judge(r, obs, doc, entries, "contents", "title-in-contents" if bare else "reference-section",
          title=title, style=style, what=what)


def pages(r, obs, i):
    """Pages with running headers and footers; form feeds as pdftotext prints them."""
    style = r.choice(list(STYLES))
    title = r.choice(document.TITLES)
    entries, lines = section(r, style, r.choice([3, 8, 20, 40]))
    after, what = tail(r)
    height = r.randint(18, 45)
    heads = r.choice([0, 1, 1, 2])
    feet = r.choice([0, 1, 1, 2])
    number = r.choice(["%d", "%d", "- %d -", "Page %d"])
    words = gen.phrase(r, 2, 5)
    # the even pages have a header of their own
    sides = r.random() < 0.35
    title_words = gen.phrase(r, 3, 8)
    blanks = r.random() < 0.3
    body = document.prose(r, height * r.randint(3, 6)) + [title] + lines + after
    out = []
    chunks = [body[j:j + height] for j in range(0, len(body), height)]
    if len(chunks[-1]) < 6:
        chunks[-1] += document.prose(r, 6) if after else []
        if len(chunks[-1]) < 6:
            chunks[-2:] = [chunks[-2] + chunks[-1]]
    sides = sides and heads and len(chunks) > 4
    for p, chunk in enumerate(chunks, 1):
        head = ["A. Author: " + words, number % p][:heads]
        if sides and p % 2 == 0:
            head[0] = title_words.upper()
        foot = ["Draft of " + words, number % p][:feet]
        if heads == 2 and feet:
            foot = ["Draft of " + words][:feet]
        if blanks:
            head, foot = head and head + [""], foot and [""] + foot
        out += head + chunk + foot + ["\f"]
    judge(r, obs, out, entries, "pages:%d" % len(chunks), title=title, style=style, heads=heads,
          feet=feet, height=height, number=number, blanks=blanks, what=what)
    obs.saw("headers:%d footers:%d" % (heads, feet), what)
    obs.saw("two-sided headers" if sides else "one header")


def uniform(r, obs, i):
    """Pages of entries which look much the same, without headers or footers."""
    style = r.choice(list(STYLES))
    title = r.choice(["References", "REFERENCES", "Bibliography"])
    height = r.choice([10, 15, 21, 30, 40])
    n = height * r.randint(4, 7) - r.randint(1, height - 6)
    step, form = r.choice([3, 5, 7, 9, 11]), r.choice([
        "%s. %sov, Phys. Rev. %d, %d (%d).", "%s. %sson, Nucl. Phys. B%d, %d (%d).",
        "%s.%sman, J. Phys. %d (%d) %d."])
    entries = []
    few = r.random() < 0.7
    for k in range(1, n + 1):
        if few and 0 < (k - 1) % height < height - 1:
            # only the entries at the ends of the pages look much the same
            entries.append((STYLES[style] % k) + document.entry(r, k))
            continue
        a = chr(65 + k * step % 26)
        b = chr(65 + (k * step + 9) % 26)
        entries.append((STYLES[style] % k) + form % (
            a, b + r.choice(["ar", "en", "il", "om"]), r.randint(n + 2, 999),
            r.randint(n + 2, 999), r.randint(1950, 2019)))
    pages_ = [document.prose(r, height - 1) + [title]]
    pages_ += [entries[j:j + height] for j in range(0, n, height)]
    out = []
    for p in pages_:
        out += p + ["\f"]
    judge(r, obs, out, entries,
          "uniform ends" if few else "uniform entries", title=title, style=style, height=height)


def floating(r, obs, i):
    """A figure or a table, with its text, inside the references."""
    style = r.choice(list(STYLES))
    title = r.choice(["References", "REFERENCES", "Bibliography"])
    n = r.choice([3, 8, 20])
    at = r.randint(1, n - 1)
    entries, lines = [], []
    for k in range(1, n + 1):
        e = (STYLES[style] % k) + document.entry(r, k)
        entries.append(e)
        lines += document.wrap(r, e, first=12)
        if k == at:
            far = r.choice([3, 12, 40, 80, 120, 150])
            caption = r.choice(["Figure 3: ", "Table 1. ", "FIG. 2. ", "Fig. 7. ", "TABLE IV. "])
            if compose.mentions(caption, k + 1):
                caption = "Figure IX. "
            lines += [caption + gen.phrase(r)] + [
                x for x in document.prose(r, far) if not compose.mentions(x, k + 1)]
    after, what = tail(r)
    doc = document.prose(r, r.randint(1, 40)) + [title] + lines + after
    judge(r, obs, doc, entries, "floating:%d" % far, split=at - 1, title=title, style=style,
          at=at, what=what)


def running(r, obs, i):
    """The title of the references, alone or with the page number, again inside them."""
    style = r.choice(list(STYLES))
    title = r.choice(["References", "REFERENCES", "Bibliography", "BIBLIOGRAPHY"])
    n = r.choice([4, 12, 30])
    how = r.choice(["%(t)s", "%(p)d %(t)s", "%(p)d. %(t)s", "(%(p)d) %(t)s", "[%(p)d] %(t)s",
                    "%(p)d   %(t)s  "])
    start, every, page = r.randint(1, n - 1), r.choice([1, 3, 10]), r.randint(n + 1, 900)
    entries, lines, times = [], [], 0
    for k in range(1, n + 1):
        e = (STYLES[style] % k) + document.entry(r, k)
        entries.append(e)
        w = document.wrap(r, e, first=12)
        if k >= start and (k - start) % every == 0:
            # between two lines, of one entry or of two
            w.insert(r.randint(1, len(w)), how % {"p": page + times, "t": title})
            times += 1
        lines += w
    after, what = tail(r)
    doc = document.prose(r, r.randint(1, 40)) + [title] + blank(r, [0, 1]) + lines + after
    judge(r, obs, doc, entries, "running title:" + how, title=title, style=style, what=what)


KINDS = {
    "running": (100, 1000, running),
    "flat": (240, 3000, flat),
    "same_line": (100, 1000, same_line),
    "untitled": (200, 2500, untitled),
    "contents": (120, 1500, contents),
    "pages": (240, 3000, pages),
    "uniform": (60, 600, uniform),
    "floating": (100, 1000, floating),
}
