"""Oracle: the shape of what the library returns."""

import re

FIELDS = frozenset(
    "linemarker raw_ref misc journal_title journal_volume journal_year journal_page "
    "journal_reference reportnumber url urldesc doi hdl author title isbn publisher "
    "year collaboration recid texkey".split()
)
SINGLE = ("raw_ref", "linemarker", "texkey", "year")
INTERNAL = re.compile(r"</?cds\.|\bcds\.[A-Z]")


def check_reference(obs, ref, source=None, given_markup=False):
    obs.check(type(ref) is dict, "not-a-dict", ref=ref)
    obs.check(not set(ref) - FIELDS, "unknown-field", fields=sorted(map(str, ref)))
    obs.check("raw_ref" in ref, "no-raw-ref", ref=ref)
    for name, values in ref.items():
        obs.check(type(values) is list and values, "value-not-a-list", field=name, value=values,
                  source=source)
        for v in values:
            obs.check(isinstance(v, str), "value-not-text", field=name, value=values,
                      source=source)
            obs.check(v.strip(), "blank-value", field=name, value=values, source=source)
            if name != "raw_ref" and not given_markup:
                obs.check(not INTERNAL.search(v), "internal-markup", field=name, value=values,
                          source=source)
    for name in SINGLE:
        obs.check(len(ref.get(name, "x")) == 1, "repeated-field", field=name,
                  value=ref.get(name), source=source)
    n = len(ref.get("journal_reference", ()))
    obs.check(len(ref.get("journal_title", ())) == n, "journal-fields-out-of-step", ref=ref,
              source=source)
    for name in ("journal_volume", "journal_year", "journal_page"):
        obs.check(len(ref.get(name, ())) <= n, "journal-fields-out-of-step", ref=ref,
                  source=source)
    for v in ref.get("doi", ()):
        obs.check(v.startswith("doi:10."), "malformed-doi", value=v, source=source)
    for v in ref.get("hdl", ()):
        obs.check(v.startswith("hdl:"), "malformed-hdl", value=v, source=source)
    for v in ref.get("year", ()):
        obs.check(re.fullmatch(r"[A-Za-z]?\d{4}", v), "malformed-year", value=v, source=source)


def check_result(obs, result, source=None):
    obs.check(type(result) is list, "not-a-list", result=repr(result)[:300])
    given = bool(source and re.search(r"cds\s*\.", source))
    for ref in result:
        check_reference(obs, ref, source, given)
        obs.saw(*("field:" + name for name in ref))
