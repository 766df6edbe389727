"""Hostile text: token soup, constants and regular expressions mined from the
code under test, character-level mutation, and coverage feedback."""

import ast
import glob
import importlib
import os
import pkgutil
import re
import sys
import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import re._constants as sc
    import re._parser as sp

import gen
import refextract

ROOT = os.path.dirname(os.path.abspath(refextract.__file__))

TOKENS = [
    "[1] ", "[2] ", "[3] ", "[10] ", "1. ", "2. ", "1) ", "(1) ", "(2) ", "{1} ", "<1>",
    "[a]", "[Ref99]", "[]", "[1", "*", "References\n", "REFERENCES", "Bibliography\n",
    "Literature Cited\n", "Appendix A\n", "Acknowledgements\n", "Table 1\n", "Fig. 2",
    "FIGURE CAPTIONS\n", "\n", "\n\n", "\r\n", "\r", "\f", "\n\f\n", "\t", "  ", "\u00a0",
    "\u200b", "\ufeff", "doi:10.1103/PhysRevD.12.1", "https://doi.org/10.1000/abc",
    "10.1234%2fabc(1)", "doi:10.1016/S0370-2693(00)00123-4", "hdl:1234/567",
    "http://hdl.handle.net/2429/99", "http://www.cern.ch/a b/c.html", "http://",
    '<a href="http://x.org/">desc</a>', "<a href='", "</a>", "http://arxiv.org/abs/1207.1234",
    "ISBN 978-3-16-148410-0", "ISBN 10: 0306406152", "ISBN",
    "arXiv:1207.1234v2 [hep-ph]", "hep-th/9901001", "arXiv:9910-123 [hep-th]", "1501.00001",
    "arXiv", "hep-ph", "astro-ph/0101001v3", "Phys. Rev. D 12, 123 (1999)",
    "Nucl. Phys. B 12 (1980) 22-33", "JHEP 01 (2003) 012", "JHEP 01, 2003", "JHEP", "JCAP",
    "Nature", "Nucl.Phys.Proc.Suppl. B12 (1990) 1", "ibid. 12, 13 (2000)", "ibid B 33", "Ibid",
    "IBID.", "; ", ";", ", ", ",", " and ", " & ", "et al.", "et al", "J. Smith",
    "A. B. Jones, C. D. Brown", "Smith J.", "van der Berg", "eds.", "(ed.)", "(Eds. )", "edited by",
    '"A quoted title"', '"', "\u201cquoted\u201d", "\u2018q\u2019", "''", "Springer",
    "Cambridge University Press", "North-Holland", "CMS Collaboration", "ATLAS Coll.",
    "the LEP Collaborations", "CERN-PH-EP-2012-218", "ATLAS-CONF-2012-001", "ATL-CONF-99-001",
    "PoS LAT2007 (2007) 369", "POS(LAT2005)22", "see also", "in preparation",
    "private communication", "1999", "2010", "(2001)", "(20", "19", "vol.", "Vol. ", "No. 3", "no.",
    "pp. ", "p.", "XVI", "xiv", "<cds.URL />", "<cds.DOI />", "<cds.JOURNAL>", "</cds.JOURNAL>",
    "<cds.AUTHstnd>", "</cds.AUTHstnd>", "<cds.VOL>", "<cds.", "<", ">", "&lt;", "&amp;",
    "\u0661", "\u00b2", "\u2460", "\u0969", "99999999999999999999", "0", "00", "-1", "1e9",
    "Fifty years of Yang-Mills theory 2005", "-", "\u2013", "\u2212", ":", "_", "'", "%", "%s",
    "{title}", "{0}", "\\", "\\n", "\x00", "\x0b", "\x1f", "\x7f", "\u2028", "\ud7ff", "\uffff",
    "\U0001d54f", "e\u0301", "\u00e9", "\ufb01", "\u223c", "\u00df", "\u0130", "\u1e9e",
    "\u0149", "\u4e2d\u6587", "\u0416", "http:// x .org/", "9" * 30, "e-mail: a@b.c",
    "DAN 12 (1999) 3", "In:", "in Proc.", "Ph.D. thesis", "(unpublished)", "[hep-ph]", "[FS12]",
    "[arXiv:hep-th/9901001]", "A", "B", "I", "V", "(", ")", "[", "]", "{", "}", ".", "..", "...",
]

SMALL_KB = list(gen.SMALL_KB) + [("NATURE", "Nature"), ("Z PHYS C", "Z.Phys.;C")]


def _docstrings(tree):
    out = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant
            ):
                out.add(id(body[0].value))
    return out


def mine():
    """-> (strings, integers) of the code under test: a fuzzing dictionary."""
    strings, ints = set(), set()
    for path in glob.glob(ROOT + "/**/*.py", recursive=True):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        doc = _docstrings(tree)
        for node in ast.walk(tree):
            if not isinstance(node, ast.Constant) or id(node) in doc:
                continue
            v = node.value
            if isinstance(v, str) and 1 <= len(v) <= 40:
                strings.add(v)
            elif isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 100000:
                ints.add(v)
    return sorted(strings), sorted(ints)


def mine_patterns():
    """All compiled regular expressions of the modules of the code under test."""
    out = set()
    for info in pkgutil.walk_packages([ROOT], "refextract."):
        try:
            mod = importlib.import_module(info.name)
        except Exception:
            continue
        stack = list(vars(mod).values())
        seen = 0
        while stack and seen < 5000:
            seen += 1
            v = stack.pop()
            if isinstance(v, re.Pattern) and isinstance(v.pattern, str):
                if len(v.pattern) < 6000:
                    out.add((v.pattern, v.flags))
            elif isinstance(v, (list, tuple)) and len(v) < 50:
                stack += list(v)
    return sorted(out)


_UNI = {
    sc.CATEGORY_DIGIT: "0123456789\u0661",
    sc.CATEGORY_SPACE: " \t  ",
    sc.CATEGORY_WORD: "abcXYZ012_\u00e9",
    sc.CATEGORY_NOT_DIGIT: "ab .,-",
    sc.CATEGORY_NOT_SPACE: "ab1.,-",
    sc.CATEGORY_NOT_WORD: " .,;-()",
}


def from_regex(r, pattern, flags, limit=120):
    """A random string matching (nearly always) the expression."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = sp.parse(pattern, flags)
    groups = {}

    def any_of(items):
        neg = items and items[0][0] is sc.NEGATE
        if neg:
            items = items[1:]
        pool = []
        for op, av in items:
            if op is sc.LITERAL:
                pool.append(chr(av))
            elif op is sc.RANGE:
                pool.append(chr(r.randint(av[0], av[1])))
            elif op is sc.CATEGORY:
                pool.append(r.choice(_UNI[av]))
        if not neg:
            return r.choice(pool) if pool else ""
        for _ in range(20):
            c = r.choice("abcdeXYZ0123 .,;:-()[]/\"'\u00e9")
            if c not in pool:
                return c
        return "~"

    def walk(seq, depth):
        out = ""
        for op, av in seq:
            if len(out) > limit:
                break
            if op is sc.LITERAL:
                c = chr(av)
                out += c.swapcase() if flags & re.I and r.random() < 0.3 else c
            elif op is sc.NOT_LITERAL:
                out += r.choice([x for x in "ab1 .,-" if x != chr(av)])
            elif op is sc.ANY:
                out += r.choice("ab1 .,-(")
            elif op is sc.IN:
                out += any_of(av)
            elif op is sc.BRANCH:
                out += walk(r.choice(av[1]), depth + 1)
            elif op is sc.SUBPATTERN:
                s = walk(av[3], depth + 1)
                if av[0] is not None:
                    groups[av[0]] = s
                out += s
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                hi = lo + 4 if hi is sc.MAXREPEAT else min(int(hi), lo + 6)
                for _ in range(r.randint(lo, max(lo, hi))):
                    out += walk(sub, depth + 1)
            elif op is sc.GROUPREF:
                out += groups.get(av, "")
            elif op is sc.ATOMIC_GROUP:
                out += walk(av, depth + 1)
            elif op is sc.GROUPREF_EXISTS:
                out += walk(av[1] if groups.get(av[0]) else (av[2] or []), depth + 1)
            # assertions and positions produce nothing
        return out

    return walk(tree, 0)[: 4 * limit]


class Source:
    """Built once, before the workers are forked."""

    def __init__(self):
        self.strings, self.ints = mine()
        self.patterns = []
        import random

        probe = random.Random(0)
        for p, f in mine_patterns():
            try:
                from_regex(probe, p, f)
            except Exception:
                continue
            self.patterns.append((p, f))

    def token(self, r):
        x = r.random()
        if x < 0.55:
            return r.choice(TOKENS)
        if x < 0.68:
            return r.choice(self.strings)
        if x < 0.82:
            return from_regex(r, *r.choice(self.patterns))
        if x < 0.87:
            n = r.choice(self.ints) + r.choice([-1, 0, 1])
            return str(max(0, n))
        if x < 0.90:
            n = min(300, r.choice(self.ints) + r.choice([-1, 0, 1]))
            return r.choice(["x", "9", "a ", ".", "I", "-"]) * max(0, n)
        if x < 0.95:
            return gen.phrase(r, 1, 4)
        return "".join(
            chr(
                r.choice(
                    [
                        r.randrange(32, 127),
                        r.randrange(160, 0x3000),
                        r.randrange(0, 32),
                        r.randrange(0x3000, 0xD800),
                        r.randrange(0xE000, 0x10FFFF),
                    ]
                )
            )
            for _ in range(r.randrange(1, 8))
        )

    def soup(self, r, n=None):
        n = n or r.choice([0, 1, 2, 3, 5, 8, 13, 21, 40])
        out = []
        for _ in range(n):
            out.append(self.token(r))
            if r.random() < 0.45:
                out.append(r.choice([" ", " ", ", ", "\n", ". ", "; "]))
        return "".join(out)[:4000]

    def mutate(self, r, s):
        for _ in range(r.choice([1, 1, 2, 4, 8])):
            if not s:
                s = self.token(r)
            i = r.randrange(len(s) + 1)
            j = min(len(s), i + r.choice([1, 1, 2, 5, 20]))
            k = r.randrange(8)
            if k == 0:
                s = s[:i] + s[j:]
            elif k == 1:
                s = s[:i] + self.token(r) + s[i:]
            elif k == 2:
                s = s[:i] + s[i:j] * r.choice([2, 3, 10]) + s[j:]
            elif k == 3:
                s = s[:i] + self.token(r) + s[j:]
            elif k == 4:
                a = r.randrange(len(s) + 1)
                b = min(len(s), a + r.randrange(1, 40))
                s = s[:i] + s[a:b] + s[i:]
            elif k == 5:
                s = s[:i] + r.choice([" ", "\n", ";", ",", ".", "(", ")", "<", '"']) + s[j:]
            elif k == 6:
                s = s[:i] + s[i:j].swapcase() + s[j:]
            else:
                s = s[:i] + s[i:j][::-1] + s[j:]
        return s[:4000]


# --------------------------------------------------------------------------
# coverage feedback

TOOL = 3


class Coverage:
    """Lines and branches of the code under test reached for the first time."""

    def __init__(self):
        self.seen = set()
        self.new = 0
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "verif")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.register_callback(TOOL, mon.events.BRANCH, self._branch)
        mon.set_events(TOOL, mon.events.LINE | mon.events.BRANCH)

    def _line(self, code, line):
        if code.co_filename.startswith(ROOT):
            key = (code, line)
            if key not in self.seen:
                self.seen.add(key)
                self.new += 1
        return sys.monitoring.DISABLE

    def _branch(self, code, offset, dest):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        key = (code, offset, dest)
        if key in self.seen:
            return None
        self.seen.add(key)
        self.new += 1
        return None

    def take(self):
        n, self.new = self.new, 0
        return n

    def close(self):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)
