"""Knowledge bases given to a call are used, instead of the default ones, in every form."""

import json
import os
import shutil
import tempfile

import compose
import gen
from refextract import extract_journal_reference, extract_references_from_string
from refextract.references.config import CFG_REFEXTRACT_KBS

PROPERTY = "P17"
LEVEL = "exploration"
RULE = (
    "knowledge bases of made-up journals, journal regexps, special journals, publishers, "
    "collaborations, books, author replacements and report numbers, given as dictionary, list, "
    "tuple and file (with comments, padding and final line end or without); entries which cite "
    "their terms and ones of the default knowledge bases are parsed with each form. The fields are "
    "compared with the knowledge base, the forms with each other, and everything else with the "
    "result without override. Non-trivial: every case"
)
ASSUMPTIONS = [
    "seek terms are words of letters (and blanks and dots); they are different after upper-casing",
    "files of knowledge bases contain well-formed lines and comments",
]
CPU_LIMIT = 240
SYL = "ba de fi go lu mi no ru sa ti vo wu xe zi kra bro flu gri ple stu".split()


def setup():
    extract_references_from_string("[1] A. Author, Phys. Rev. D 1, 2 (1999)")


def word(r, seen):
    while True:
        w = "".join(r.choice(SYL) for _ in range(r.randint(2, 3))).capitalize() + r.choice("qxkp")
        if w.lower() not in seen:
            seen.add(w.lower())
            return w


class Files:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="kb_")
        self.n = 0
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, text):
        self.n += 1
        path = os.path.join(self.dir, "kb%d.kb" % self.n)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        return path

    def pairs(self, r, pairs):
        pad = r.choice(["", " ", "        ", "\t"])
        lines = [r.choice(["# made-up\n", "", ""])]
        for a, b in pairs:
            lines.append(a + (pad if r.random() < 0.8 else "") + "---" +
                         r.choice(["", "", " ", pad]) + b + r.choice(["", "", " "]) + "\n")
            if r.random() < 0.05:
                lines.append("# " + b + "---nothing\n")
        text = "".join(lines)
        if r.random() < 0.3:
            text = text[:-1]
        if r.random() < 0.2:
            text = text.replace("\n", "\r\n")
        return self.write(text)

    def lines(self, r, lines):
        text = r.choice(["# made-up\n", ""]) + "\n".join(lines) + r.choice(["\n", ""])
        return self.write(text)


def parse(obs, text, kbs):
    return obs.call(extract_references_from_string, text, override_kbs_files=kbs)


def same_in_all_forms(obs, text, base, kind, forms):
    first = None
    for how, kb in forms:
        refs = parse(obs, text, dict(base, **{kind: kb}))
        if first is None:
            first = refs
        else:
            obs.equal(refs, first, "form-of-the-knowledge-base", kind=kind, how=how, text=text,
                      kb=repr(forms[0][1])[:600])
        obs.saw("%s as %s" % (kind, how))
    return first


def pair_forms(r, f, pairs):
    forms = [("list", [list(p) for p in pairs]), ("tuples", tuple(tuple(p) for p in pairs))]
    if len({p[0] for p in pairs}) == len(pairs):
        forms.append(("dict", dict(pairs)))
    forms.append(("file", f.pairs(r, pairs)))
    other = list(pairs)
    r.shuffle(other)
    forms.append(("list in another order", other))
    r.shuffle(forms)
    return forms


def line_forms(r, f, lines):
    forms = [("list", list(lines)), ("tuple", tuple(lines)), ("file", f.lines(r, lines))]
    r.shuffle(forms)
    return forms


def journals(r, obs, i):
    seen = set()
    pairs, spell = [], {}
    names = []
    for _ in range(r.choice([1, 2, 4, 8, 20])):
        words = [word(r, seen) for _ in range(r.randint(1, 4))]
        if names and r.random() < 0.4:
            # contains another one
            other = r.choice(names)
            words = r.choice([other + words, words + other])
        names.append(words)
        series = r.choice(["", "", "", ";B", ";A"])
        repl = r.choice([". ".join(words) + ".", " ".join(words), ".".join(words) + ".",
                         " ".join(w[:6] for w in words) + ".", "".join(w[0] for w in words) + "Qj"])
        if any(p[1].upper() == (repl + series).upper() for p in pairs):
            repl = "Std" + str(len(pairs)) + " " + repl
        if series:
            # the series is a letter of the title as well
            words = words + [series[1]]
        seek = r.choice([" ".join(words).upper(), " ".join(words), ". ".join(words)])
        pairs.append((seek, repl + series))
        spell[len(pairs) - 1] = words
    special = [p[1] for p in pairs if ";" not in p[1] and r.random() < 0.3]
    lines, want = [], []
    for k in range(1, r.randint(1, 6) + 1):
        j = r.randrange(len(pairs))
        words = spell[j]
        title, _, series = pairs[j][1].partition(";")
        form = r.choice([" ".join(words), " ".join(words).upper(), ". ".join(words) + ".",
                         " ".join(words).lower(), ".".join(words) + ".", ", ".join(words[:1]) +
                         "".join(" " + w for w in words[1:])])
        if not series and "Qj" not in title and r.random() < 0.2:
            form = title
        v, p, y = r.randint(100, 199), r.randint(300, 1799), gen.year(r)
        if r.random() < 0.3:
            v = r.randint(13, 99)
        vol, page = series + str(v), str(p)
        if pairs[j][1] in special and v < 100:
            vol = "%02d%02d" % (y % 100, v)
        text = "%s. %s, %s %d, %d (%d)" % (r.choice("ABCD"), r.choice(gen.SURNAMES), form, v, p, y)
        lines.append("[%d] %s." % (k + 6, text))
        want.append((title, vol, str(y), page))
    text = "\n".join(lines)
    with Files() as f:
        base = {"special_journals": special or ["none"]}
        refs = same_in_all_forms(obs, text, base, "journals", pair_forms(r, f, pairs))
        again = same_in_all_forms(obs, text, {"journals": pairs}, "special_journals",
                                  line_forms(r, f, special or ["none"]))
        obs.equal(again, refs, "form-of-the-knowledge-base", text=text)
        got = [tuple((ref.get("journal_" + x) or [None])[0] for x in (
            "title", "volume", "year", "page")) for ref in refs]
        obs.equal(got, want, "journal-of-the-knowledge-base", text=text, kb=pairs, special=special)
        # the default titles are replaced
        refs = parse(obs, "[1] A. Smith, Phys. Rev. D 12, 345 (1999), " +
                     "Nucl. Phys. B 12, 345 (1999).", {"journals": pairs})
        obs.check(not any("journal_title" in x for x in refs), "default-journals-used", refs=refs,
                  kb=pairs)
        j = r.randrange(len(lines))
        info = obs.call(extract_journal_reference, lines[j].split(" ", 1)[1], override_kbs_files={
            "journals": r.choice(pair_forms(r, f, pairs))[1], "special_journals": special or ["none"]})
        obs.equal(info and tuple(info.get(x) for x in ("title", "volume", "year", "page")), want[j],
                  "journal-reference-of-the-knowledge-base", line=lines[j], kb=pairs)
    obs.input(pairs, lines)
    obs.saw("journals:%d" % len(pairs), "special:%s" % bool(special))


def journal_regexps(r, obs, i):
    seen = set()
    a, b = word(r, seen), word(r, seen)
    std = word(r, seen) + ". " + word(r, seen) + "."
    regexp, shown = r.choice([
        (a, a), (a + " ?" + b, a + r.choice(["", " "]) + b),
        ("%s (?:%s|Lett)" % (a, b), a + " " + r.choice([b, "Lett"])),
        ("%s|%s" % (a, b), r.choice([a, b])), (a[:-1] + "[a-z]", a),
    ])
    lines = [regexp + "---" + std, word(r, seen) + "---" + word(r, seen)]
    r.shuffle(lines)
    v, p, y = r.randint(2, 199), r.randint(300, 1799), gen.year(r)
    before = r.choice(["", "A. Smith, ", 'B. Jones, "Remarks about walls", ', "see "])
    text = "[1] %s%s %d, %d (%d)." % (before, shown, v, p, y)
    with Files() as f:
        refs = same_in_all_forms(obs, text, {"journals": gen.SMALL_KB}, "journals_re",
                                 line_forms(r, f, lines))
    obs.equal([[ref.get("journal_" + x) for x in ("title", "volume", "year", "page")]
               for ref in refs], [[[std], [str(v)], [str(y)], [str(p)]]],
              "journal-of-the-regexp", text=text, kb=lines)
    obs.input(text, lines)


def publishers(r, obs, i):
    seen = set()
    pairs = []
    for _ in range(r.choice([1, 2, 5, 12])):
        words = [word(r, seen) for _ in range(r.randint(1, 3))]
        if pairs and r.random() < 0.4:
            # contains another one
            other = r.choice(pairs)[0].title().split()
            words = r.choice([other + words, words + other, words + other + [word(r, seen)]])
        case = r.choice([str.upper, str.upper, str.title, str.lower])
        pairs.append((case(" ".join(words)), r.choice([" ".join(words), words[0] + "Std"])))
    lines, want = [], []
    for k in range(1, r.randint(1, 4) + 1):
        seek, repl = r.choice(pairs)
        form = r.choice([seek, seek.upper(), seek.lower(), seek.title()])
        lines.append("[%d] A. Smith, \"%s\", %s%s." % (
            k, gen.phrase(r), form, r.choice([", %d" % gen.year(r), "", ", ISBN 9783897046671"])))
        want.append([repl])
    text = "\n".join(lines)
    with Files() as f:
        refs = same_in_all_forms(obs, text, {"journals": gen.SMALL_KB}, "publishers",
                                 pair_forms(r, f, pairs))
    obs.equal([ref.get("publisher") for ref in refs], want, "publisher-of-the-knowledge-base",
              text=text, kb=pairs)
    text = "[1] A. Smith, \"%s\", Springer, 1999." % gen.phrase(r)
    refs = parse(obs, text, {"journals": gen.SMALL_KB, "publishers": dict(pairs)})
    obs.check(not any("publisher" in x for x in refs), "default-publishers-used", refs=refs)
    obs.input(pairs, lines)


def collaborations(r, obs, i):
    seen = set()
    pairs = []
    for _ in range(r.choice([1, 2, 5, 12])):
        name = r.choice([word(r, seen).upper(), word(r, seen), word(r, seen) + " " + word(r, seen)])
        pairs.append((name + " Collaboration", r.choice(pairs)[1] if pairs and r.random() < 0.2
                      else name + " Collaboration"))
    lines, want = [], []
    for k in range(1, r.randint(1, 4) + 1):
        name = r.choice(pairs)[0].removesuffix(" Collaboration")
        form = name + r.choice([" Collaboration", " Coll.", " collaboration"])
        lines.append("[%d] %s, %s." % (k, form, "\"%s\", Phys. Rev. %d, %d (%d)" % (
            gen.phrase(r), r.randint(100, 199), r.randint(300, 999), gen.year(r))))
        want.append([form.rstrip(".")])
    text = "\n".join(lines)
    with Files() as f:
        refs = same_in_all_forms(obs, text, {"journals": gen.SMALL_KB}, "collaborations",
                                 pair_forms(r, f, pairs))
    obs.equal([ref.get("collaboration") for ref in refs], want,
              "collaboration-of-the-knowledge-base", text=text, kb=pairs)
    obs.input(pairs, lines)


def books(r, obs, i):
    seen = set()
    rows = []
    for _ in range(r.choice([1, 2, 5, 12])):
        title = " ".join(word(r, seen).lower() for _ in range(r.randint(2, 6))).capitalize()
        rows.append(("%s, %s." % (word(r, seen), r.choice("ABC")), title, str(r.randint(1950, 2020))))
    lines, want = [], []
    for k in range(1, r.randint(1, 4) + 1):
        who, title, year = r.choice(rows)
        shown = r.choice([title, title.upper(), title.title()])
        if r.random() < 0.5:
            lines.append('[%d] %s, "%s", %s.' % (k, "A. Smith", shown, year))
        else:
            lines.append("[%d] A. Smith, %s, %s." % (k, shown, year))
        want.append([title])
    text = "\n".join(lines)
    with Files() as f:
        listed = [list(x) for x in rows]
        text_rows = "".join("%s|%s|%s;\n" % x for x in rows)
        forms = [("list", listed), ("tuples", tuple(rows)), ("file", f.write(text_rows))]
        r.shuffle(forms)
        refs = same_in_all_forms(obs, text, {"journals": gen.SMALL_KB}, "books", forms)
    obs.equal([ref.get("title") for ref in refs], want, "book-of-the-knowledge-base", text=text,
              kb=rows)
    obs.input(rows, lines)


def authors(r, obs, i):
    seen = set()
    pairs = []
    for _ in range(r.choice([1, 3])):
        w = word(r, seen)
        pairs.append((w[:3] + r.choice([" \u0308", " ~", "|"]) + w[3:], w))
    bad, good = r.choice(pairs)
    text = "[1] A. %s and B. Smith, Phys. Rev. %d, %d (%d)." % (
        bad, r.randint(100, 199), r.randint(300, 999), gen.year(r))
    with Files() as f:
        forms = [("list", [a + "---" + b for a, b in pairs]), ("file", f.pairs(r, pairs))]
        refs = same_in_all_forms(obs, text, {"journals": gen.SMALL_KB}, "authors", forms)
    obs.equal([ref.get("author") for ref in refs], [["A. %s and B. Smith" % good]],
              "author-of-the-knowledge-base", text=text, kb=pairs)
    obs.input(text)


def report_numbers(r, obs, i):
    seen = set()
    lines, cats = [], []
    for _ in range(r.choice([1, 2, 4])):
        lines.append("*****%s*****" % word(r, seen))
        schemes = r.sample([("< yy 999>", lambda: "%02d %03d" % (r.randint(60, 99), r.randint(0, 999))),
                            ("< yyyy 999>", lambda: "%d %03d" % (r.randint(1960, 2020),
                                                                r.randint(0, 999))),
                            ("< 99999>", lambda: "%05d" % r.randint(30000, 99999)),
                            ("< a 99>", lambda: "%s %02d" % (r.choice("BCDF"), r.randint(0, 99))),
                            ("< yymm 99>", lambda: "%02d%02d %02d" % (r.randint(60, 99), r.randint(
                                1, 12), r.randint(0, 99)))], r.randint(1, 2))
        for s, _f in schemes:
            lines.append(s)
        for _ in range(r.choice([1, 2, 3])):
            name = " ".join(word(r, seen).upper() for _ in range(r.randint(1, 2)))
            std = name.replace(" ", "-") if r.random() < 0.6 else word(r, seen).upper()
            lines.append(name + r.choice(["", "   ", "\t"]) + "---" + std)
            cats.append((name, std, schemes))
        if r.random() < 0.3:
            lines.append("")
    entries, want = [], []
    for k in range(1, r.randint(1, 4) + 1):
        name, std, schemes = r.choice(cats)
        num = r.choice(schemes)[1]()
        sep = r.choice(["-", "-", " ", "/"])
        shown = (name + " " + num).replace(" ", sep)
        entries.append("[%d] A. Smith, \"%s\", %s%s." % (
            k, gen.phrase(r), shown, r.choice(["", ", unpublished", ", %s" % "hep-th/9901001"])))
        want.append([(std + "-" + num).replace(" ", "-")])
    text = "\n".join(entries)
    with Files() as f:
        refs = same_in_all_forms(obs, text, {"journals": gen.SMALL_KB}, "report-numbers",
                                 line_forms(r, f, lines))
    got = [[x for x in ref.get("reportnumber", []) if "hep-th" not in x] for ref in refs]
    obs.equal(got, want, "report-number-of-the-knowledge-base", text=text, kb=lines)
    refs = parse(obs, "[1] A. Smith, CERN-TH-2001-012.", {"journals": gen.SMALL_KB, "report-numbers": lines})
    obs.check(not any("reportnumber" in x for x in refs), "default-report-numbers-used", refs=refs)
    obs.input(lines, entries)


def neutral(r, obs, i):
    """An override which is not used, or which says what the default one says, changes nothing."""
    text = "\n".join("[%d] %s" % (k, compose.text_of(compose.citation(r))) for k in range(
        1, r.randint(1, 3) + 1))
    seen = set()
    w = word(r, seen), word(r, seen)
    kinds = sorted(CFG_REFEXTRACT_KBS)
    want = obs.call(extract_references_from_string, text)
    over = {}
    for kind in r.sample(kinds, r.randint(1, 4)):
        over[kind] = r.choice([None, CFG_REFEXTRACT_KBS[kind], None, "", {}, []])
    refs = parse(obs, text, over)
    obs.equal(refs, want, "neutral-override", text=text, override=repr(over))
    obs.equal(parse(obs, text, {}), want, "neutral-override", text=text, override="{}")
    # terms which do not occur
    kind = r.choice(["publishers", "collaborations", "special_journals", "books", "authors",
                     "journals_re"])
    with open(CFG_REFEXTRACT_KBS[kind], encoding="utf-8") as f:
        default = [x for x in f.read().split("\n") if x.strip() and not x.startswith("#")]
    more = {"publishers": "%s---%s", "collaborations": "%s Collaboration---%s", "special_journals":
            "%s %s", "books": "%s|%s|1999;", "authors": "%s---%s", "journals_re": "%s---%s"}[kind] % w
    default.insert(r.randrange(len(default) + 1) if kind != "books" else len(default), more)
    with Files() as f:
        path = f.write("\n".join(default) + "\n")
        obs.equal(parse(obs, text, {kind: path}), want, "terms-which-do-not-occur", kind=kind,
                  text=text)
    obs.input(text, json.dumps(over))
    obs.saw("neutral:" + kind)


KINDS = {
    "journals": (700, 9000, journals),
    "journal_regexps": (250, 2500, journal_regexps),
    "publishers": (180, 2500, publishers),
    "collaborations": (250, 2500, collaborations),
    "books": (250, 2500, books),
    "authors": (150, 1500, authors),
    "report_numbers": (220, 3500, report_numbers),
    "neutral": (80, 800, neutral),
}
