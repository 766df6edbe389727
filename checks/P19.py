"""A list of lines is parsed line by line; the statistics count what is in all of them."""

import copy

import compose
import fuzz
import gen
from refextract.references.engine import parse_references

PROPERTY = "P19"
LEVEL = "exploration"
RULE = (
    "lists of 0 to 40 lines (entries with known elements, entries citing several papers, the same "
    "line several times, hostile lines, empty lines) are parsed; the references of the list are "
    "those of its lines, one after the other, and every statistic is the sum of those of the lines. "
    "For lines with known elements, the statistics are compared with the numbers of DOIs, links, "
    "arXiv and report numbers, journal citations and author groups printed. Non-trivial: at least "
    "two lines with elements"
)
ASSUMPTIONS = ["a link to arxiv.org or a handle server counts as a link"]
KB = {"journals": gen.SMALL_KB}
NUMBERS = ("reportnum", "title", "author", "url", "doi", "misc")
SRC = None


def setup():
    global SRC
    SRC = fuzz.Source()
    parse_references(["[1] A. Author, Phys. Rev. D 1, 2 (1999)"], override_kbs_files=KB)


def parse(obs, lines):
    given = copy.copy(lines)
    refs, stats = obs.call(parse_references, lines, override_kbs_files=KB)
    obs.equal(lines, given, "lines-modified", lines=given)
    for k in NUMBERS:
        obs.check(type(stats[k]) is int and stats[k] >= 0, "statistic-is-a-number", lines=given,
                  stats=stats)
    obs.equal(stats["old_stats_str"], "%s-%s" % (stats["status"], "-".join(
        str(stats[k]) for k in NUMBERS)), "printed-statistics", lines=given)
    obs.equal(stats["status"], 0, "status", lines=given)
    return refs, {k: stats[k] for k in NUMBERS}


def a_line(r, n):
    """-> line, statistics (or None)"""
    kind = r.random()
    marker = r.choice(["[%d] " % n, "[%d] " % n, "%d. " % n, "(%d) " % n, ""])
    if kind < 0.55:
        papers = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            els = compose.citation(r)
            while els[-1].feat[:1] == ("fermilab",):
                els = compose.citation(r)
            papers.append(els)
        count = dict.fromkeys(NUMBERS, 0)
        for els in papers:
            for e in els:
                k = {"AUTH": "author", "JOURNAL": "title", "DOI": "doi"}.get(e.kind)
                if k:
                    count[k] += 1
        fields = [compose.fields_of(p) for p in papers]
        count["links and numbers"] = sum(len(f.get(k, ())) for f in fields
                                         for k in ("reportnumber", "url"))
        return marker + "; ".join(compose.text_of(p, end="") for p in papers) + ".", count
    if kind < 0.62:
        return r.choice(["", " ", marker, marker.strip() + ".", "\n"]), None
    if kind < 0.75:
        return marker + gen.phrase(r), "text"
    return marker + " ".join(SRC.token(r) for _ in range(r.randint(1, 14))), None


def lists(r, obs, i):
    lines, known = [], []
    for n in range(1, r.choice([0, 1, 2, 3, 5, 8, 15, 40]) + 1):
        if lines and r.random() < 0.1:
            k = r.randrange(len(lines))
            lines.append(lines[k])
            known.append(known[k])
        else:
            line, count = a_line(r, n)
            lines.append(line)
            known.append(count)
    refs, stats = parse(obs, lines)
    alone, total = [], dict.fromkeys(NUMBERS, 0)
    for line, count in zip(lines, known):
        its_refs, its_stats = parse(obs, [line])
        alone += its_refs
        for k in NUMBERS:
            total[k] += its_stats[k]
        if count == "text":
            obs.equal(its_stats, dict(dict.fromkeys(NUMBERS, 0), misc=1), "nothing-but-text",
                      line=line)
            count = None
        for k in ("author", "title", "doi"):
            if count:
                obs.equal(its_stats[k], count[k], "number-of-%ss" % k, line=line)
        if count:
            handles = sum(len(x.get("hdl", ())) for x in its_refs)
            n = its_stats["url"] + its_stats["reportnum"]
            obs.check(count["links and numbers"] <= n <= count["links and numbers"] + handles,
                      "number-of-links-and-report-numbers", line=line, stats=its_stats,
                      expected=count)
            obs.saw("line with known elements")
    obs.equal(refs, alone, "list-gives-other-references-than-its-lines", lines=lines)
    obs.equal(stats, total, "statistics-are-not-the-sum", lines=lines)
    if sum(isinstance(k, dict) for k in known) > 1:
        obs.input("\n".join(lines))
    obs.saw("lines:%d" % len(lines))


KINDS = {
    "lists": (500, 6000, lists),
}
