"""The batch functions answer item by item and never raise."""

import copy

import calls
import compose
import fuzz
import gen
from refextract import extract_journal_reference, extract_references_from_string
from refextract.extract import (
    extract_journal_info,
    extract_references_from_file_url,
    extract_references_from_list,
    extract_references_from_text,
)

PROPERTY = "P13"
LEVEL = "exploration"
RULE = (
    "lists of 0 to 12 raw references or publication infos: citations, hostile texts, multi-line "
    "and empty texts, repeated items, missing keys and items which are not text at all, with a "
    "journal knowledge base as dictionary or list; the answer for each position is compared with "
    "the answer for the item alone, and with the function it wraps. Non-trivial: at least two "
    "items"
)
ASSUMPTIONS = ["items which are not text are given to the function for reference lists only"]
KBS = [calls.KB_A, calls.KB_B, calls.KB_C]
FORMAT = "{title},{volume},{page}"
SRC = None


def setup():
    global SRC
    SRC = fuzz.Source()
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files={"journals": gen.SMALL_KB})


def a_kb(r):
    kb = r.choice(KBS)
    return {a: b for a, b in kb} if r.random() < 0.6 else [list(p) for p in kb]


def raw(r):
    k = r.randrange(12)
    if k < 5:
        els = compose.citation(r)
        if r.random() < 0.4:
            els.append(gen.El("MISC", "Phys. Rev. %d, %d (%d)" % (
                r.randint(2, 99), r.randint(3, 1800), gen.year(r)), {}))
        return r.choice(["", "", "[3] ", "12. "]) + compose.text_of(els)
    if k == 5:
        return "; ".join(compose.text_of(compose.citation(r), end="") for _ in range(2))
    if k == 6:
        return " ".join(SRC.token(r) for _ in range(r.randint(1, 12)))
    if k == 7:
        return "[1] " + compose.text_of(compose.citation(r)) + "\n[2] " + compose.text_of(
            compose.citation(r))
    if k == 8:
        return r.choice(["", " ", "\n", "\n\n  ", ".", "[1]", "\f"])
    if k == 9:
        return r.choice(["ibid. 12, 34 (1999)", "Zeta Lett. 12, 34 (1999)",
                         "Omega Ann. 3, 7 (2001)", "JHEP 03 (2004) 12", "References",
                         "A. Smith, to appear"])
    return "A. Smith, Phys. Rev. %d, %d (%d)" % (r.randint(2, 99), r.randint(3, 1800), gen.year(r))


def shape(obs, got, key, n, **detail):
    obs.check(isinstance(got, dict) and set(got) == {key}, "shape-of-the-answer", got=got, **detail)
    obs.check(isinstance(got[key], list), "shape-of-the-answer", got=got, **detail)
    if n is not None:
        obs.equal(len(got[key]), n, "one-answer-for-each-item", answer=got, **detail)
    return got[key]


def reference_lists(r, obs, i):
    kb = a_kb(r)
    items = [raw(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12]))]
    if items and r.random() < 0.3:
        items.insert(r.randrange(len(items)), r.choice(items))
    odd = set()
    if items and r.random() < 0.35:
        for _ in range(r.choice([1, 1, 2])):
            p = r.randrange(len(items))
            items[p] = r.choice([None, 12, {"a": 1}, ["x"], b"bytes [1]", 3.5])
            odd.add(p)
    mine, my_kb = copy.deepcopy(items), copy.deepcopy(kb)
    got = shape(obs, obs.call(extract_references_from_list, mine, my_kb),
                "extracted_references", len(items), items=items)
    obs.equal((mine, my_kb), (items, kb), "argument-modified")
    for p, (item, answer) in enumerate(zip(items, got)):
        if p in odd or any(x is item for x in [items[q] for q in odd]):
            obs.equal(answer, {"raw_ref": [item]}, "item-which-cannot-be-parsed", items=items)
            obs.saw("not text:" + type(item).__name__)
            continue
        refs = obs.call(extract_references_from_string, item, override_kbs_files={
            "journals": copy.deepcopy(kb)}, reference_format=FORMAT)
        want = refs[0] if refs else {"raw_ref": [item]}
        obs.equal(answer, want, "answer-for-the-item", item=item, items=items, position=p)
        obs.saw("references of an item:%d" % min(len(refs), 4))
    if len(items) > 1:
        obs.input(repr(items))
    obs.saw("items:%d" % len(items))


def infos(r, obs, i):
    kb = a_kb(r)
    items = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12])):
        k = r.randrange(8)
        if k == 0:
            items.append(r.choice([{}, {"year": 1999}, {"pubinfo_freetext": ""},
                                   {"pubinfo_freetext": None}]))
        else:
            items.append({"pubinfo_freetext": raw(r)})
            if r.random() < 0.2:
                items[-1]["journal_title"] = "whatever"
    mine, my_kb = copy.deepcopy(items), copy.deepcopy(kb)
    got = shape(obs, obs.call(extract_journal_info, mine, my_kb),
                "extracted_publication_infos", len(items), items=items)
    obs.equal((mine, my_kb), (items, kb), "argument-modified")
    for p, (item, answer) in enumerate(zip(items, got)):
        text = item.get("pubinfo_freetext")
        want = {}
        if text:
            want = obs.call(extract_journal_reference, text, override_kbs_files={
                "journals": copy.deepcopy(kb)}) or {}
            obs.saw("journal" if want else "no journal")
        else:
            obs.saw("no text")
        obs.equal(answer, want, "answer-for-the-item", item=item, items=items, position=p)
    # with the journal it contains
    y, v, page = gen.year(r), r.randint(2, 99), r.randint(3, 1800)
    items.insert(r.randrange(len(items) + 1), {"pubinfo_freetext": "Zeta Qwx. %d, %d (%d)" % (
        v, page, y)})
    where = next(p for p, x in enumerate(items) if "Zeta Qwx" in str(x))
    got = shape(obs, obs.call(extract_journal_info, items, [["ZETA QWX", "Zeta Qwx."]]),
                "extracted_publication_infos", len(items), items=items)
    el = got[where]
    obs.equal([el.get(k) for k in ("title", "volume", "year", "page")],
              ["Zeta Qwx.", str(v), str(y), str(page)], "journal-of-the-item", items=items, got=el)
    if len(items) > 1:
        obs.input(repr(items))


def whole_texts(r, obs, i):
    kb = a_kb(r)
    text = "\n".join("[%d] %s" % (k, raw(r).replace("\n", " ")) for k in range(
        1, r.randint(1, 5) + 1))
    if r.random() < 0.2:
        text = r.choice([raw(r), "", "\n"])
    my_kb = copy.deepcopy(kb)
    got = shape(obs, obs.call(extract_references_from_text, text, my_kb),
                "extracted_references", None, text=text)
    obs.equal(my_kb, kb, "argument-modified")
    want = obs.call(extract_references_from_string, text, override_kbs_files={
        "journals": copy.deepcopy(kb)}, reference_format=FORMAT)
    obs.equal(got, want, "answer-for-the-text", text=text)
    obs.input(text)
    bad = r.choice([None, 12, b"x", ["a"]])
    obs.check(obs.call(extract_references_from_text, bad, kb) is None, "not-text", given=repr(bad))
    url = r.choice(["http://127.0.0.1:9/none.pdf", "no url", "", "file:///etc/none", "http://",
                    "http://[::1", None, 12])
    obs.check(obs.call(extract_references_from_file_url, url, kb) is None, "no-document", url=url)
    obs.saw("text", "url which cannot be read")


KINDS = {
    "reference_lists": (500, 6000, reference_lists),
    "infos": (500, 6000, infos),
    "whole_texts": (600, 6000, whole_texts),
}
