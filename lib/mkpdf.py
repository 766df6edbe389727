"""Hand-written PDF: pages of text lines, named destinations, link annotations."""

import zlib


def esc(s):
    return s.replace("\\", "\\\\").replace("(", "\\(").replace(")", "\\)")


def make_pdf(pages, dests=(), annots=(), width=3000, height=792, store="tree", internal=(),
             compress=False, embed=None, updates=0):
    """pages: lists of (x, y, text); dests: (name, page, x, y); annots: (page, rect, uri);
    internal: (page, rect, name of a destination)

    store: where the destinations are: "tree" (flat name tree), "kids" (name tree with inner
    nodes), "dict" (/Dests of the catalogue), "D" (name tree of dictionaries)
    compress: compress the contents of the pages; embed: bytes of an embedded file;
    updates: how often the file was saved again, each time with an incremental update
    """
    objs = []

    def add(b):
        objs.append(b if isinstance(b, bytes) else b.encode("latin-1"))
        return len(objs)

    cat = add("")
    pgs = add("")
    font = add("<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>")
    page_ids = []
    contents = []
    if embed is not None:
        add(b"<< /Type /EmbeddedFile /Length %d >>\nstream\n" % len(embed) + embed
            + b"\nendstream")
    for i, lines in enumerate(pages):
        c = ("BT /F1 9 Tf\n" + "".join("1 0 0 1 %s %s Tm (%s) Tj\n" % (x, y, esc(t))
                                       for x, y, t in lines) + "ET").encode("latin-1")
        how = b""
        if compress:
            c, how = zlib.compress(c), b" /Filter /FlateDecode"
        cid = add(b"<< /Length %d%s >>\nstream\n" % (len(c), how) + c + b"\nendstream")
        contents.append(cid)
        aids = []
        head = "<< /Type /Annot /Subtype /Link /Border [0 0 0] /Rect [%s %s %s %s] "
        for p, rect, uri in annots:
            if p == i:
                aids.append(add(head % rect + "/A << /S /URI /URI (%s) >> >>" % esc(uri)))
        for p, rect, name in internal:
            if p == i:
                aids.append(add(head % rect + "/A << /S /GoTo /D (%s) >> >>" % esc(name)))
        page_ids.append(add(
            "<< /Type /Page /Parent %d 0 R /MediaBox [0 0 %s %s] /Resources << /Font << /F1 %d 0 R "
            ">> >> /Contents %d 0 R%s >>" % (
                pgs, width, height, font, cid,
                (" /Annots [%s]" % " ".join("%d 0 R" % a for a in aids)) if aids else "")))
    names = ""
    if dests:
        where = [(n, "[%d 0 R /XYZ %s %s null]" % (page_ids[p], x, y))
                 for n, p, x, y in sorted(dests)]
        if store == "D":
            where = [(n, "<< /D %s >>" % d) for n, d in where]
        if store == "dict":
            did = add("<< %s >>" % " ".join("/%s %s" % (n, d) for n, d in where))
            names = " /Dests %d 0 R" % did
        else:
            size = 4 if store == "kids" else len(where)
            leaves = []
            for k in range(0, len(where), size):
                part = where[k:k + size]
                leaves.append(add("<< /Limits [(%s) (%s)] /Names [%s] >>" % (
                    esc(part[0][0]), esc(part[-1][0]),
                    " ".join("(%s) %s" % (esc(n), d) for n, d in part))))
            if store == "kids":
                root = add("<< /Kids [%s] >>" % " ".join("%d 0 R" % x for x in leaves))
            else:
                root = leaves[0]
            names = " /Names << /Dests %d 0 R >>" % root
    objs[cat - 1] = ("<< /Type /Catalog /Pages %d 0 R%s >>" % (pgs, names)).encode()
    objs[pgs - 1] = ("<< /Type /Pages /Count %d /Kids [%s] >>" % (
        len(page_ids), " ".join("%d 0 R" % p for p in page_ids))).encode()
    out = b"%PDF-1.4\n"
    draft = b"BT /F1 9 Tf 1 0 0 1 50 700 Tm (A draft of this page) Tj ET"
    draft = b"<< /Length %d >>\nstream\n" % len(draft) + draft + b"\nendstream"
    # what is saved in each turn: first a draft, in the end all the pages
    turns = [list(enumerate(objs, 1))]
    if updates:
        todo = [(c, objs[c - 1]) for c in contents]
        turns = [[(n, draft if n in contents else o) for n, o in turns[0]]]
        for k in range(updates):
            turns.append(todo[k::updates])
    prev = b""
    for turn in turns:
        offs = []
        for n, o in turn:
            offs.append((n, len(out)))
            out += b"%d 0 obj\n" % n + o + b"\nendobj\n"
        xref = len(out)
        out += b"xref\n"
        if not prev:
            out += b"0 %d\n0000000000 65535 f \n" % (len(objs) + 1)
        for n, o in offs:
            out += (b"%d 1\n" % n if prev else b"") + b"%010d 00000 n \n" % o
        out += b"trailer\n<< /Size %d /Root %d 0 R%s >>\nstartxref\n%d\n%%%%EOF\n" % (
            len(objs) + 1, cat, prev, xref)
        prev = b" /Prev %d" % xref
    return out[:-1]
