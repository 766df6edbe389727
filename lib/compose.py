"""Citations and bibliographies with their ground truth."""

import re

import gen

STYLES = {
    "[n]": "[%d] ",
    "[n]tight": "[%d]",
    "[ n ]": "[ %d ] ",
    "n.": "%d. ",
    "(n)": "(%d) ",
    "{n}": "{%d} ",
    "n)": "%d) ",
    "n]": "%d] ",
    "n}": "%d} ",
    "{ n }": "{ %d } ",
    "( n )": "( %d ) ",
    "n ]": "%d ] ",
    "n )": "%d ) ",
    "n .": "%d . ",
}


def citation(r, lo=1, filler=True):
    """The elements of one citation, in an order in which they are printed."""
    els = []
    if r.random() < 0.7:
        els.append(gen.author_group(r))
    if r.random() < 0.2:
        els.append(gen.collaboration(r))
    if r.random() < 0.4:
        els.append(gen.quoted(r))
    if r.random() < 0.6:
        els.append(gen.journal(r) if r.random() < 0.8 else gen.special_journal(r))
    tail = []
    for f, p in (
        (gen.doi, 0.4),
        (gen.arxiv, 0.4),
        (gen.report, 0.2),
        (gen.url if r.random() < 0.8 else gen.html_url, 0.25),
        (gen.handle, 0.1),
        (gen.isbn, 0.1),
        (gen.publisher, 0.1),
    ):
        if r.random() < p:
            tail.append(f(r))
    r.shuffle(tail)
    els += tail
    if len(els) < lo:
        els.append(gen.journal(r))
    if filler and r.random() < 0.3:
        els.insert(r.randrange(len(els) + 1), gen.El("MISC", gen.phrase(r), {}))
    return els


def text_of(els, end="."):
    return ", ".join(e.text for e in els) + end


def fields_of(els):
    """What the elements say, as field -> list of values in order."""
    out = {}
    for e in els:
        for k, v in e.fields.items():
            out.setdefault(k, []).append(v)
    if "journal_year" in out:
        out["year"] = out["journal_year"][:1]
    return out


def mentions(text, n):
    """Is n one of the numbers of the text?"""
    return any(int(d) == n for d in re.findall(r"[0-9]+", text))


def wrap(r, text, min_width=20, max_width=90, hyphenate=False, indent="", first=0):
    """Break a line at spaces (and inside words, with a hyphen) -> lines.

    The text is what has to be recovered.  Never breaks after a word which ends
    with a hyphen (that would be read as hyphenation), nor before `first`.
    """
    words = text.split(" ")
    lines = [words[0]]
    width = r.randint(min_width, max_width)
    pos = len(words[0])
    for prev, word in zip(words, words[1:]):
        if (
            len(lines[-1]) + 1 + len(word) > width
            and not prev.endswith("-")
            and prev
            and word
            and pos > first
        ):
            if hyphenate and re.fullmatch(r"[a-z]{8,}", word) and r.random() < 0.5:
                k = r.randint(3, len(word) - 3)
                lines[-1] += " " + word[:k] + "-"
                lines.append(indent + word[k:])
            else:
                lines.append(indent + word)
            width = r.randint(min_width, max_width)
        else:
            lines[-1] += " " + word
        pos += 1 + len(word)
    return lines


def strip_refs(refs):
    """Comparable copy of the references of a line."""
    return [{k: list(v) for k, v in ref.items()} for ref in refs]


def join(r, obs, lines):
    """The lines as a text, with line ends and trailing white space of all kinds."""
    k = r.random()
    if k < 0.75:
        return "\n".join(lines)
    if k < 0.85:
        obs.saw("line ends: crlf")
        return "\r\n".join(lines)
    obs.saw("line ends: trailing space")
    return "\n".join(x + r.choice(["", " ", "  ", "\t"]) for x in lines)
