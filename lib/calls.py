"""Calls of the public entry points, described by data, so that the same call
can be made in another process."""

import copy
import json
import os
import sys

import gen

KB_A = [["PHYS REV", "Phys. Rev."], ["NUCL PHYS", "Nucl. Phys."], ["ZETA LETT", "Zeta Lett."],
        ["JHEP", "JHEP"]]
KB_B = [["PHYS REV", "Physical Review"], ["NUCL PHYS", "NP"], ["OMEGA ANN", "Omega Ann."]]
KB_C = [["PHYS REV", "Phys.Rev.;D"], ["ZETA LETT", "Z.L."], ["JHEP", "J. HEP"]]


def overrides(r, scratch):
    """A value for override_kbs_files, as data (files are created in scratch)."""
    out = {}
    k = r.randrange(10)
    kb = r.choice([KB_A, KB_B, KB_C])
    if k < 4:
        out["journals"] = {a: b for a, b in kb}
    elif k < 6:
        out["journals"] = [list(p) for p in kb]
    elif k < 8:
        path = os.path.join(scratch, "journals-%d.kb" % [KB_A, KB_B, KB_C].index(kb))
        with open(path, "w", encoding="utf-8") as f:
            f.write("".join(f"{a}---{b}\n" for a, b in kb))
        out["journals"] = path
    elif k == 8:
        out["journals"] = {a: b for a, b in reversed(kb)}
    else:
        out["journals"] = {a: b for a, b in kb}
        out[r.choice(["books", "publishers"])] = None
    x = r.random()
    if x < 0.15:
        out["special_journals"] = r.choice([["JHEP"], ["Phys. Rev."], ["Zeta Lett.", "JHEP"]])
    elif x < 0.3:
        out["journals_re"] = r.choice([["OMEGA---Om.\n"], ["Theta\\s+Lett---Th. L.\n"],
                                       ["OMEGA---Omega Journal\n", "THETA---T\n"]])
    elif x < 0.4:
        out["collaborations"] = r.choice([{"Zorg Collaboration": "ZORG"},
                                          {"Zorg Collaboration": "Zorg Coll."}])
    elif x < 0.5:
        out["publishers"] = r.choice([{"Zubrowka": "Zubrowka Press"}, {"Zubrowka": "ZP"}])
    elif x < 0.56:
        out["report-numbers"] = r.choice([
            ["*****ZQ*****\n", "<s-?yyyy[- ]999>\n", "ZQ NOTE---ZQ-NOTE\n"],
            ["*****ZQ*****\n", "<s-?yyyy[- ]999>\n", "ZQ NOTE---ZQN\n"]])
    elif x < 0.62:
        out["books"] = r.choice([[["A. Zed", "Strings for pedestrians", "1999;"]],
                                 [["A. Zed", "Walls for pedestrians", "1998;"]]])
    elif x < 0.66:
        out["authors"] = r.choice([["Zmith---Smith\n"], ["Zmith---Zmyth\n"]])
    if r.random() < 0.06:
        bad = r.choice(["missing", "malformed"])
        path = os.path.join(scratch, bad + ".kb")
        if bad == "malformed":
            with open(path, "w", encoding="utf-8") as f:
                f.write("PHYS REV---Phys. Rev.\nthis is not a knowledge base line\n")
        out["journals"] = path
    return out


TAILS = ["Zorg Collaboration", "Zubrowka, 1999", "ZQ-NOTE-2001-123", "OMEGA 12, 345 (1999)",
         '"Strings for pedestrians", 1999', "Theta Lett 3, 4 (2001)", "K. Zmith",
         "ibid. 13, 99 (2001)", "Omega Ann. 1, 2 (2003)", "JHEP 03 (2004) 12", ""]


def text(r):
    lines = []
    for k in range(1, r.randint(1, 3) + 1):
        els = [gen.author_group(r).text]
        els.append(r.choice(["Phys. Rev.", "Nucl. Phys.", "Zeta Lett."])
                   + " %d, %d (%d)" % (gen.number(r), r.randint(1, 1800), gen.year(r)))
        for f in r.sample([gen.doi, gen.arxiv, gen.url, gen.isbn, gen.quoted, gen.report,
                           gen.collaboration], r.randint(0, 2)):
            els.append(f(r).text)
        els += r.sample(TAILS, r.randint(0, 2))
        lines.append("[%d] " % k + r.choice([", ", "; "]).join(e for e in els if e) + ".")
    return "\n".join(lines)


def make(r, scratch, default_kb=False):
    spec = {"text": text(r), "overrides": None if default_kb else overrides(r, scratch)}
    k = r.randrange(8)
    if k == 0:
        spec["fn"] = "journal"
    elif k == 1:
        spec["fn"] = "list"
        spec["text"] = [text(r) for _ in range(2)]
        spec["journals"] = {a: b for a, b in r.choice([KB_A, KB_B, KB_C])}
        spec.pop("overrides")
    elif k == 2:
        spec["fn"] = "file"
        spec["path"] = os.path.join(scratch, "doc-%d.txt" % r.randrange(10**9))
        with open(spec["path"], "w", encoding="utf-8") as f:
            f.write("Some introduction\n" * 6 + "References\n" + spec["text"] + "\n")
    else:
        spec["fn"] = "string"
        spec["mode"] = r.random() < 0.75
        if r.random() < 0.3:
            spec["format"] = r.choice(["{title},{volume},{page}", "{title}|{year}"])
        spec["link"] = r.random() < 0.15
    return spec


def perform(spec, kbs=None):
    """-> ["ok", result] or ["error", type]; the result is plain data."""
    import refextract
    from refextract import extract

    over = kbs if kbs is not None else copy.deepcopy(spec.get("overrides"))
    kw = {"override_kbs_files": over}
    if spec.get("format"):
        kw["reference_format"] = spec["format"]
    try:
        if spec["fn"] == "journal":
            res = refextract.extract_journal_reference(spec["text"], override_kbs_files=over)
        elif spec["fn"] == "list":
            res = extract.extract_references_from_list(
                copy.deepcopy(spec["text"]), copy.deepcopy(spec["journals"]))
        elif spec["fn"] in ("file", "pdf"):
            res = refextract.extract_references_from_file(spec["path"], **kw)
        else:
            if spec.get("link"):
                kw["linker_callback"] = lambda el: len(el.get("type", "")) or None
            res = refextract.extract_references_from_string(
                spec["text"], is_only_references=spec["mode"], **kw)
    except Exception as exc:
        return ["error", type(exc).__name__]
    return ["ok", res]


def plain(x):
    return json.loads(json.dumps(x, default=str))


def main():
    """stdin: list of specs; stdout: list of results, each in order."""
    specs = json.load(sys.stdin)
    json.dump([plain(perform(s)) for s in specs], sys.stdout)


if __name__ == "__main__":
    main()
