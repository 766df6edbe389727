"""Whole documents: pages of text with a reference section."""

import re

import compose
import gen

# starts of lines which look like something else than the continuation of an entry
LOOKALIKE = re.compile(
    r"(?i)^\s*[\[({<*\d]|^\W*(\w\W*)?(append|acknow|tab|fig|list|annex|disc|remer|ind|summ)"
    r"|^\W*[LVIX]\W*conclusion|^\W*(ref|r.?f|bib|lit|cit|pub)|^\W*(this|prepared|created)")

TITLES = ["References", "References", "REFERENCES", "Bibliography", "BIBLIOGRAPHY", "References:",
          "R e f e r e n c e s", "6. References", "6 References", "References and notes",
          "Literaturverzeichnis", "Bibliographie", "Citations", "Refs.", "Reference",
          "VII. REFERENCES", "  References  ", "R\u00e9f\u00e9rences", "References."]
TITLES.remove("References and notes")  # not a supported title
AFTER = ["Appendix A", "Acknowledgements", "ACKNOWLEDGMENTS", "Figure captions", "Appendix",
         "Table 1. Masses", "List of figures", "Fig. 1. Spectra", "A. Appendix", "Annex",
         "Table captions", "Appendices", "Figure 2: Spectra", "FIG. 12. Spectra", "TABLE IV. Masses",
         "Tab. 3. Masses", "A p p e n d i x", "Appendix B: Details", "Remerciements", "Summary",
         "Discussion", "Index", "I. Conclusions and outlook", "(A) Appendix", "Acknowledgment"]


def wrap(r, text, lo=40, hi=90, first=10, indent="", lower=True):
    """Lines of an entry, none of which looks like the start of something."""
    for _ in range(6):
        lines = compose.wrap(r, text, lo, hi, first=first, indent=indent)
        if len(lines) <= 20 and not any(LOOKALIKE.match(x) for x in lines[1:]) and not any(
                x.rstrip().endswith("-") for x in lines):
            return lines
    return [text]


def entry(r, k, avoid=None):
    """The text of an entry which does not mention the number of the next one."""
    for _ in range(80):
        b = compose.text_of(compose.citation(r))
        if r.random() < 0.2:
            b = b[:-1] + ", " + gen.phrase(r, 5, 30) + "."
        if compose.mentions(b, k + 1) or compose.mentions(b, 1):
            continue
        if LOOKALIKE.match(b) or "<a" in b:
            continue
        if avoid and re.search(avoid, b):
            continue
        return b.strip()
    return "A. Smith, " + gen.phrase(r) + "."


def prose(r, n):
    """Lines of running text, some of which mention references."""
    out = []
    for _ in range(n):
        line = gen.phrase(r, 6, 14).capitalize()
        if r.random() < 0.15:
            line += r.choice([" as in [1]", " [2,3]", " (see references)", " in Ref. [4]",
                              " of the references", " (Smith 1999)"])
        if LOOKALIKE.match(line):
            line = "Once " + line
        out.append(line)
    return out
