"""A file gives what its text gives, whatever its type, junk, encoding and name."""

import os
import re
import shutil
import tempfile

import document
import gen
import mkpdf
import resources
from refextract import extract_references_from_file, extract_references_from_string
from refextract.references.errors import FullTextNotAvailableError, UnknownDocumentTypeError

PROPERTY = "P15"
LEVEL = "exploration"
RULE = (
    "documents with a reference section, written as PDF of one to eight pages (with headers and "
    "footers, with junk before and after the PDF, with odd file names) and as plain text (UTF-8, "
    "Latin-1, with and without byte order mark and carriage returns); the references of the file "
    "are compared with the printed entries and with those of the text, the bytes of the file are "
    "compared before and after, and files, descriptors, processes and threads are watched. "
    "Non-trivial: every case"
)
ASSUMPTIONS = [
    "PDFs are set in one column with a standard font; their text is Latin-1",
    "removing the bytes around a PDF in place is intended",
]
KB = {"journals": gen.SMALL_KB}
CPU_LIMIT = 120


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="doc_")
        self.old = tempfile.tempdir
        tempfile.tempdir = self.dir
        return self

    def __exit__(self, *exc):
        tempfile.tempdir = self.old
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, data):
        path = os.path.join(self.dir, name)
        with open(path, "wb") as f:
            f.write(data)
        return path


NAMES = ["doc.pdf", "doc", "a b.pdf", "d'oc.pdf", "-doc.pdf", "--help", "-", "a;touch x.pdf",
         "$(touch y).pdf", "\u00e9t\u00e9.pdf", "doc.txt", "doc.html", "x" * 200 + ".pdf", "%s.pdf",
         "a\nb.pdf", "*.pdf"]


def body(r, n=None):
    entries, lines = [], []
    style = r.choice(["[%d] ", "[%d] ", "%d. ", "(%d) "])
    for k in range(1, (n or r.choice([1, 2, 5, 12, 30])) + 1):
        e = style % k + document.entry(r, k)
        entries.append(e)
        lines += document.wrap(r, e, first=12)
    title = r.choice(["References", "REFERENCES", "Bibliography", "7. References"])
    return entries, document.prose(r, r.randint(3, 60)), [title] + lines


def recovered(obs, refs, entries, **detail):
    got = []
    for ref in refs:
        item = (ref.get("linemarker"), ref["raw_ref"])
        if not got or got[-1] != item:
            got.append(item)
    want = [([str(k)], [e]) for k, e in enumerate(entries, 1)]
    if got != want:
        first = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b),
                     min(len(got), len(want)))
        obs.fail("entries-of-the-file", entry=first + 1, numbers=(len(got), len(want)),
                 got=got[first:first + 2], expected=want[first:first + 2], **detail)
    obs.events += len(want)


def layout(r, prose, lines):
    """Pages of (x, y, text); -> pages, description"""
    lead = r.choice([11, 12, 14])
    heads = r.random() < 0.4
    foots = r.random() < 0.4
    chunks, page = [], []
    height = r.randint(25, 45)
    for x in prose + lines:
        page.append(x)
        if len(page) == height:
            chunks.append(page)
            page = []
    if page:
        chunks.append(page)
    if len(chunks) > 1 and len(chunks[-1]) < 5:
        last = chunks.pop()
        chunks[-1] = chunks[-1] + last
    if len(chunks) < 5 or any(x in ("References", "REFERENCES", "Bibliography", "7. References")
                              for x in chunks[0]):
        heads = foots = False
    pages = []
    for p, chunk in enumerate(chunks, 1):
        y = 760
        out = []
        if heads:
            out.append((40, 775, "A. Author: " + "a study of walls"))
        for x in chunk:
            out.append((40, y, x))
            y -= lead
        if foots:
            out.append((300, y - 20, str(p)))
        pages.append(out)
    return pages, "pages:%d%s%s" % (len(pages), " headers" if heads else "",
                                    " footers" if foots else "")


def junk(r, n):
    k = r.randrange(5)
    if k == 0:
        return b"\n" * r.randint(1, n)
    if k == 1:
        return b"HTTP/1.1 200 OK\r\nContent-Type: application/pdf\r\n\r\n"[:n]
    if k == 2:
        return bytes(r.randrange(256) for _ in range(r.randint(1, n))).replace(b"%", b"x")
    if k == 3:
        return b"<html>%s</html>\n" % (b"x" * r.randint(0, n))
    return b"\0" * r.randint(1, n)


def pdf(r, obs, i):
    entries, prose, lines = body(r)
    for _ in range(r.choice([0, 0, 3])):
        prose += document.prose(r, 60)
    pages, what = layout(r, prose, lines)
    updates = r.choice([0, 0, 0, 1, 2])
    embed = None
    if r.random() < 0.2:
        embed = mkpdf.make_pdf([[(50, 700, "An embedded document")]])
        what += " embedded"
    compress = r.random() < 0.3
    data = mkpdf.make_pdf(pages, updates=updates, embed=embed, compress=compress)
    obs.saw("updates:%d" % updates, "compressed:%s" % compress)
    name = r.choice(NAMES) if r.random() < 0.5 else "doc.pdf"
    with Scratch() as s:
        path = s.write(name, data)
        cwd = os.getcwd()
        given = path
        if r.random() < 0.4:
            os.chdir(s.dir)
            given = name
        try:
            watch = resources.Watch(s.dir)
            refs = obs.call(extract_references_from_file, given, override_kbs_files=KB)
            watch.judge(obs, name=name)
        finally:
            os.chdir(cwd)
        recovered(obs, refs, entries, name=name, what=what)
        want = obs.call(extract_references_from_string, "\n".join(prose + lines),
                        is_only_references=False, override_kbs_files=KB)
        obs.equal(refs, want, "pdf-differs-from-text", name=name)
        with open(path, "rb") as f:
            obs.check(f.read() == data, "file-modified", name=name)
        # the same document with something around it
        before = junk(r, 900) if r.random() < 0.7 else b""
        after = junk(r, 3000) if r.random() < 0.7 else b"\n"
        dirty = s.write("dirty" + name[-5:].replace("\n", ""), before + data + after)
        for turn in range(2):
            watch = resources.Watch(s.dir)
            again = obs.call(extract_references_from_file, dirty, override_kbs_files=KB)
            watch.judge(obs, name=name, junk=(before[:50], after[:50]))
            obs.equal(again, want, "junk-around-the-pdf", before=str(before[:60]),
                      after=str(after[:60]), turn=turn)
            with open(dirty, "rb") as f:
                now = f.read()
            obs.check(now == data, "pdf-without-junk", sizes=(len(now), len(data)), before=str(
                before[:60]), after=str(after[:60]), lens=(len(before), len(after)), turn=turn)
        obs.saw("junk before:%s after:%s" % (bool(before), len(after) > 1))
    obs.input(name, entries)
    obs.saw(what, "name:%r" % name[:20], "relative" if given != path else "absolute")


def text(r, obs, i):
    entries, prose, lines = body(r)
    full = "\n".join(prose + lines)
    coding = r.choice(["ascii", "utf-8", "utf-8", "bom", "latin-1"])
    if coding != "ascii":
        swap = r.choice(["\u00e9", "\u00fc", "\u00df"] + (
            ["\u03b1", "\u2014", "\u5b57"] if coding != "latin-1" else []))
        word = r.choice(["masses", "about", "which", "gauge", "Smith", "spectra", "Collaboration"])
        full = full.replace(word, word + swap)
        entries = [e.replace(word, word + swap) for e in entries]
    data = full.encode({"bom": "utf-8-sig"}.get(coding, coding))
    if r.random() < 0.3:
        data = data.replace(b"\n", b"\r\n")
    if r.random() < 0.7:
        data += r.choice([b"\n", b"\n\n", b"\r\n"])
    if coding == "latin-1":
        entries = [re.sub("[\u0080-\u00ff]", "\ufffd", e) for e in entries]
        full = re.sub("[\u0080-\u00ff]", "\ufffd", full)
    with Scratch() as s:
        path = s.write(r.choice(NAMES), data)
        watch = resources.Watch(s.dir)
        refs = obs.call(extract_references_from_file, path, override_kbs_files=KB)
        watch.judge(obs)
        with open(path, "rb") as f:
            obs.check(f.read() == data, "file-modified", path=path)
    recovered(obs, refs, entries, coding=coding)
    want = obs.call(extract_references_from_string, full, is_only_references=False,
                    override_kbs_files=KB)
    obs.equal(refs, want, "text-file-differs-from-text", coding=coding)
    obs.input(coding, entries)
    obs.saw("coding:" + coding, "crlf" if b"\r\n" in data else "lf")


OTHER = {
    "png": b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR" + bytes(64),
    "gif": b"GIF89a" + bytes(50),
    "gzip": b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03" + bytes(40),
    "zip": b"PK\x03\x04" + bytes(60),
    "html": b"<!DOCTYPE html><html><head><title>x</title></head><body>References [1] A</body>",
    "xml": b"<?xml version='1.0'?><a>References</a>",
    "elf": b"\x7fELF\x02\x01\x01" + bytes(60),
    "binary": bytes(range(256)) * 3,
    "empty": b"",
    "postscript": b"%!PS-Adobe-3.0\n%%Pages: 1\nshowpage\n",
}


def other(r, obs, i):
    kind = r.choice(sorted(OTHER) + ["missing", "directory", "missing directory", "fifo", "dangling"])
    with Scratch() as s:
        path = os.path.join(s.dir, r.choice(NAMES))
        raises = FullTextNotAvailableError
        data = None
        if kind in OTHER:
            data = OTHER[kind]
            if kind not in ("empty", "binary") and r.random() < 0.5:
                data += b"%%EOF" + b" " * r.randrange(9)
            s.write(os.path.basename(path), data)
            raises = UnknownDocumentTypeError
        elif kind == "directory":
            os.mkdir(path)
        elif kind == "missing directory":
            path = os.path.join(path, "x.pdf")
        elif kind == "fifo":
            os.mkfifo(path)
        elif kind == "dangling":
            os.symlink(path + "-none", path)
        watch = resources.Watch(s.dir)
        error = None
        try:
            extract_references_from_file(path, override_kbs_files=KB)
        except Exception as exc:
            error = type(exc).__name__, exc.__class__, str(exc)[:100]
        watch.judge(obs, kind=kind)
        obs.check(error and issubclass(error[1], raises), "error-for-what-is-no-document",
                  kind=kind, error=str(error), expected=raises.__name__)
        if data is not None:
            with open(path, "rb") as f:
                obs.check(f.read() == data, "file-modified", kind=kind)
        obs.input(kind, os.path.basename(path))
        obs.saw("kind:" + kind)


def drawing_order(r, obs, i):
    """The letters of the title are not drawn in the order of reading."""
    entries, want = [], []
    for k in range(1, r.choice([2, 3, 6, 12]) + 1):
        e = "[%s%02d] %s" % (r.choice(["ABC", "Smith", "WZ"]), k, document.entry(r, 0, r"\["))
        entries.append(e)
        want.append(([e[1:e.index("]")]], [e]))
    prose = [x for x in document.prose(r, r.randint(3, 20)) if not x.lstrip()[:1].isdigit()]
    y = 760
    page = []
    for x in prose:
        page.append((40, y, x))
        y -= 14
    page += [(48, y, "EFERENCES"), (40, y, "R")]
    for e in entries:
        y -= 14
        page.append((40, y, e))
    with Scratch() as s:
        path = s.write("doc.pdf", mkpdf.make_pdf([page]))
        watch = resources.Watch(s.dir)
        refs = obs.call(extract_references_from_file, path, override_kbs_files=KB)
        watch.judge(obs)
    got = []
    for ref in refs:
        item = (ref.get("linemarker"), ref["raw_ref"])
        if not got or got[-1] != item:
            got.append(item)
    obs.equal(got, want, "entries-in-drawing-order", n=len(entries))
    obs.events += len(want)
    obs.input(entries)
    obs.saw("title drawn in another order")


KINDS = {
    "drawing_order": (60, 600, drawing_order),
    "pdf": (260, 3500, pdf),
    "text": (260, 3500, text),
    "other": (200, 2000, other),
}
