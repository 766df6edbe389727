"""The linker callback sees every recognised element, and links the reference it is in."""

import compose
import gen
from refextract import extract_references_from_string

PROPERTY = "P09"
LEVEL = "exploration"
RULE = (
    "bibliographies of one to four entries with up to nine elements, and a callback which knows "
    "some of the elements (by DOI, journal citation, report number, link, handle, ISBN, title, "
    "author, collaboration or publisher), returns numbers or strings, returns nothing in several "
    "ways, or raises the documented exceptions on those it does not know; every call of the "
    "callback is recorded. Non-trivial: at least one element is linked"
)
ASSUMPTIONS = ["the callback does not modify the element it is given"]
KB = {"journals": gen.SMALL_KB}
VALUE = {"doi": ("DOI", "doi_string"), "reportnumber": ("REPORTNUMBER", "report_num"),
         "url": ("URL", "url_string"), "hdl": ("HDL", "hdl_id"), "isbn": ("ISBN", "ISBN"),
         "title": ("QUOTED", "title"), "author": ("AUTH", "auth_txt"),
         "collaboration": ("COLLABORATION", "collaboration"),
         "publisher": ("PUBLISHER", "publisher")}


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)",
                                   override_kbs_files=KB)


def value_of(fields):
    """How the callback can know an element printed with these fields."""
    if "journal_title" in fields:
        return tuple(fields["journal_" + k] for k in ("title", "volume", "year", "page"))
    for f in VALUE:
        if f in fields:
            return VALUE[f][0], fields[f].removeprefix("doi:").removeprefix("hdl:")
    return None


def seen_value(el):
    if el["type"] == "JOURNAL":
        return tuple(el[k] for k in ("title", "volume", "year", "page"))
    for t, key in VALUE.values():
        if el["type"] == t:
            return t, el[key]
    return None


def linked(r, obs, i):
    papers, lines = [], []
    for k in range(1, r.choice([1, 1, 2, 3, 4]) + 1):
        while True:
            group = [compose.citation(r) for _ in range(r.choice([1, 1, 1, 2]))]
            if any(els[-1].feat[:1] == ("fermilab",) for els in group):
                continue
            if any(all(e.kind in ("AUTH", "COLLABORATION", "MISC") for e in els) for els in group):
                continue
            text = "; ".join(compose.text_of(els, end="") for els in group)
            if not compose.mentions(text, k + 1) and not compose.mentions(text, 1):
                break
        papers += group
        lines.append("[%d] %s." % (k, text))
    text = "\n".join(lines)
    values = [value_of(e.fields) for els in papers for e in els]
    values = sorted({v for v in values if v}, key=str)
    known = {}
    for v in r.sample(values, r.randint(1, min(4, len(values)))):
        known[v] = r.choice([r.randint(1, 10**7), "rec-%d" % r.randint(1, 999)])
    miss = r.choice(["none", "KeyError", "IndexError", "falsy"])
    calls = []

    def callback(el):
        v = seen_value(el)
        calls.append((el["type"], v))
        if v in known:
            return known[v]
        if miss == "KeyError":
            return {}[str(v)]
        if miss == "IndexError":
            return [][3]
        return r.choice([None, 0, "", False]) if miss == "falsy" else None

    plain = obs.call(extract_references_from_string, text, override_kbs_files=KB)
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB,
                    linker_callback=callback)
    # nothing but the link is different
    obs.equal([{k: v for k, v in ref.items() if k != "recid"} for ref in refs], plain,
              "callback-changes-the-references", text=text)
    # every element was offered
    offered = {v for _, v in calls}
    for v in values:
        obs.check(v in offered, "element-not-offered", text=text, element=v, calls=calls)
    obs.equal(len(refs), len(papers), "number-of-references", text=text)
    carried = None
    hits = 0
    for n, (els, ref) in enumerate(zip(papers, refs)):
        first = n == 0 or refs[n - 1].get("linemarker") != ref.get("linemarker")
        own = [value_of(e.fields) for e in els]
        auth = next((v for v in own if v and v[0] == "AUTH"), None)
        if not auth and not first and carried:
            own.insert(0, carried)
            auth = carried
        carried = auth
        ids = [known[v] for v in own if v in known]
        want = [str(ids[0])] if ids else None
        obs.equal(ref.get("recid"), want, "link", text=text, known=known, ref=ref, miss=miss)
        hits += bool(ids)
        obs.saw("links in one reference:%d" % len(ids))
    if hits:
        obs.input(text, sorted(map(str, known)))
    for v in known:
        obs.saw("linked by " + (v[0] if len(v) == 2 else "JOURNAL"))
    obs.saw("unknown: " + miss)
    obs.events += len(calls)


def ibid(r, obs, i):
    """Citations without a printed title are offered with the title of the one before."""
    y, y2 = gen.year(r), gen.year(r)
    v, p = r.randint(10, 99), r.randint(100, 999)
    v2, p2 = v + r.randint(1, 9), r.randint(1001, 1899)
    kind = r.choice(["ibid", "implied"])
    text = "[1] A. Smith, Nucl. Phys. B%d, %d (%d); %s%d, %d (%d)." % (
        v, p, y, "ibid. " if kind == "ibid" else "", v2, p2, y2)
    known = {("Nucl. Phys.", "B%d" % v2, str(y2), str(p2)): 77}
    if r.random() < 0.5:
        known[("Nucl. Phys.", "B%d" % v, str(y), str(p))] = 33
    refs = obs.call(extract_references_from_string, text, override_kbs_files=KB,
                    linker_callback=lambda el: known.get(seen_value(el)))
    obs.equal([ref.get("recid") for ref in refs], [["33"] if len(known) == 2 else None, ["77"]],
              "link-of-ibid", text=text, refs=refs)
    obs.input(text)
    obs.saw(kind)


KINDS = {
    "linked": (2500, 30000, linked),
    "ibid": (300, 3000, ibid),
}
