"""A document behind a URL gives what the document gives, and nothing is left behind."""

import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import urllib.parse
from unittest import mock

import requests

import document
import gen
import mkpdf
import resources
from refextract import extract_references_from_file, extract_references_from_url
from refextract.references.errors import FullTextNotAvailableError, UnknownDocumentTypeError

PROPERTY = "P14"
LEVEL = "exploration"
RULE = (
    "documents (PDF, plain text, other) served by a local HTTP server: plain, chunked, "
    "compressed, redirected, slow, without length, cut short, with broken framing, with error "
    "statuses, with long and odd URLs, downloaded with chunk sizes from 1 to 1000000, with headers "
    "and all other arguments; and faults injected into the download and the extraction. Results "
    "are compared with those of the file; temporary files, descriptors, processes and threads "
    "are watched over every call. Non-trivial: every case"
)
ASSUMPTIONS = ["the loopback network works"]
KB = {"journals": gen.SMALL_KB}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = LOG = PORT = None
SERVER = None
CPU_LIMIT = 120


def setup():
    global ROOT, LOG, PORT, SERVER
    base = tempfile.mkdtemp(prefix="web_")
    ROOT, LOG = os.path.join(base, "root"), os.path.join(base, "log")
    os.mkdir(ROOT)
    os.mkdir(LOG)
    for name in list(os.environ):
        if name.lower() in ("http_proxy", "https_proxy", "all_proxy"):
            del os.environ[name]
    os.environ["no_proxy"] = "127.0.0.1"
    SERVER = subprocess.Popen(
        [sys.executable, os.path.join(HERE, "lib", "webserver.py"), ROOT, LOG],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    PORT = int(SERVER.stdout.readline())
    atexit.register(SERVER.kill)
    extract_references_from_file(serve("warm", make_pdf(["[1] A. Smith, Phys. Rev. D 1, 2 (1999)"]))[1],
                                 override_kbs_files=KB)


def make_pdf(lines):
    pages, y, page = [], 740, []
    for x in lines:
        if y < 60:
            pages.append(page)
            page, y = [], 740
        page.append((40, y, x))
        y -= 12
    return mkpdf.make_pdf(pages + [page])


def serve(name, data):
    path = os.path.join(ROOT, name)
    with open(path, "wb") as f:
        f.write(data)
    return name, path


def a_document(r):
    entries = ["[%d] %s" % (k, document.entry(r, k)) for k in range(1, r.randint(2, 8))]
    lines = document.prose(r, r.randint(1, 30)) + ["References"]
    for e in entries:
        lines += document.wrap(r, e, first=12)
    if r.random() < 0.5:
        return "pdf", make_pdf([x.encode("latin-1", "replace").decode("latin-1") for x in lines])
    text = "\n".join(lines) + "\n"
    if r.random() < 0.3:
        text = text.replace("A. ", "\u00c9. ")
    return "text", text.encode("utf-8")


class Case:
    def __init__(self, r, i, kind):
        self.name = "%s-%d" % (kind, i)
        self.tmp = tempfile.mkdtemp(prefix="dl_")
        self.old = tempfile.tempdir
        tempfile.tempdir = self.tmp

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        tempfile.tempdir = self.old
        shutil.rmtree(self.tmp, ignore_errors=True)
        for d in (ROOT, LOG):
            for suffix in ("", ".copy"):
                path = os.path.join(d, self.name + suffix)
                if os.path.exists(path):
                    os.remove(path)

    def url(self, tail="", **q):
        q = dict(q, case=self.name, file=self.name)
        return "http://127.0.0.1:%d/%s?%s" % (PORT, tail, urllib.parse.urlencode(q))

    def requests(self):
        with open(os.path.join(LOG, self.name), encoding="utf-8") as f:
            return [json.loads(x) for x in f]

    def expected(self, obs, data, kw):
        path = os.path.join(self.tmp, "expected")
        with open(path, "wb") as f:
            f.write(data)
        try:
            return obs.call(extract_references_from_file, path, **kw)
        finally:
            os.remove(path)


def arguments(r):
    kw = {"override_kbs_files": KB}
    if r.random() < 0.3:
        kw["reference_format"] = r.choice(["{title},{volume},{page}", "{title}"])
    if r.random() < 0.2:
        kw["linker_callback"] = lambda el: len(el["type"])
    return kw


TAILS = ["", "paper.pdf", "a/b/c.pdf", "x" * 300 + ".pdf", "%E9t%E9.pdf", "a%20b.pdf", "\u00e9.pdf",
         "..", "a:b;c", "no_suffix", "./paper", "a/", "q=%2Fetc%2Fx"]


def download(r, obs, i):
    with Case(r, i, "d") as c:
        kind, data = a_document(r)
        serve(c.name, data)
        kw = arguments(r)
        want = c.expected(obs, data, kw)
        how = r.choice(["plain", "chunked", "chunked", "gzip", "slow", "no-length"])
        q = {"how": how, "size": r.choice([1, 10, 999, 10**6]) if len(data) < 20000 else 5000}
        if r.random() < 0.2:
            q["redirect"] = 1
        tail = r.choice(TAILS)
        url = c.url(tail, **q)
        if r.random() < 0.3:
            url += r.choice(["&path=/a/b/", "&x=" + "y" * 400, "#fragment"])
        extra = {}
        if r.random() < 0.7:
            extra["chunk_size"] = r.choice([1, 2, 7, 512, 1024, 10**6])
        headers = None
        if r.random() < 0.5:
            headers = extra["headers"] = {"X-Token": str(r.random()), "User-Agent": "check"}
        watch = resources.Watch(c.tmp)
        got = obs.call(extract_references_from_url, url, **extra, **kw)
        watch.judge(obs, url=url)
        obs.equal(got, want, "url-differs-from-file", url=url, kind=kind, arguments=str(extra))
        seen = c.requests()
        obs.equal(len(seen), 2 if "redirect" in q else 1, "number-of-requests", url=url, seen=seen)
        for request in seen:
            for k, v in (headers or {}).items():
                obs.equal(request["headers"].get(k), v, "headers-not-sent", seen=seen)
        obs.check(want, "nothing-extracted", url=url)
        obs.input(url, len(data))
        obs.saw(kind, "how:" + how, "chunk:%s" % extra.get("chunk_size"),
                "redirect" if "redirect" in q else "direct",
                "refs:%d" % min(9, len(want)))


def errors(r, obs, i):
    with Case(r, i, "e") as c:
        kind, data = a_document(r)
        what = r.choice(["status", "status", "missing", "type", "empty", "cut", "broken-chunks",
                         "refused", "scheme"])
        q, raises = {}, None
        if what == "status":
            q["status"] = r.choice([400, 401, 403, 404, 410, 429, 500, 502, 503])
            raises = FullTextNotAvailableError
        elif what == "missing":
            raises = FullTextNotAvailableError
        elif what == "type":
            data = r.choice([b"\x89PNG\r\n\x1a\n" + bytes(range(256)), b"\x1f\x8b\x08\x00" + b"x" * 99,
                             b"<html><body>References [1] x</body></html>\n" * 9,
                             bytes(range(256)) * 4])
            raises = UnknownDocumentTypeError
        elif what == "empty":
            data, raises = b"", UnknownDocumentTypeError
        elif what in ("cut", "broken-chunks"):
            q["how"] = what
            q["size"] = 300
            raises = requests.exceptions.RequestException
        else:
            raises = requests.exceptions.RequestException
        if what != "missing":
            serve(c.name, data)
        url = c.url(r.choice(TAILS), **q)
        if what == "refused":
            url = "http://127.0.0.1:9/" + r.choice(TAILS)
        elif what == "scheme":
            url = r.choice(["nothing", "gopher://127.0.0.1/x.pdf", "http://", "/tmp/x.pdf"])
        watch = resources.Watch(c.tmp)
        error = None
        try:
            extract_references_from_url(url, override_kbs_files=KB)
        except Exception as exc:
            error = type(exc), str(exc)[:200]
        watch.judge(obs, url=url, error=error)
        obs.check(error and issubclass(error[0], raises), "error-of-a-failed-download", url=url,
                  what=what, error=error, expected=raises.__name__, query=q)
        obs.input(url, what)
        obs.saw("failure:" + what + str(q.get("status", "")))


class Injected(Exception):
    pass


def faults(r, obs, i):
    """A failure at any point of the call leaves nothing behind and is not hidden."""
    with Case(r, i, "f") as c:
        kind, data = a_document(r)
        serve(c.name, data)
        error = r.choice([Injected("x"), OSError(28, "No space left on device"), MemoryError(),
                          KeyboardInterrupt(), ValueError("x")])
        where = r.choice(["refextract.references.api.extract_references_from_file",
                          "refextract.references.api.parse_references",
                          "requests.models.Response.iter_content",
                          "requests.sessions.Session.send",
                          "linker", "write"])
        kw = {"override_kbs_files": KB}
        patches = []
        if where == "linker":
            kw["linker_callback"] = mock.Mock(side_effect=error)
        elif where == "write":
            real = requests.models.Response.iter_content

            def iter_content(self, *args, **kwargs):
                for n, part in enumerate(real(self, *args, **kwargs)):
                    if n == 1:
                        raise error
                    yield part
            patches.append(mock.patch.object(requests.models.Response, "iter_content",
                                             iter_content))
            kw["chunk_size"] = 50
        else:
            try:
                patches.append(mock.patch(where, side_effect=error))
                patches[0].__enter__()
                patches[0].__exit__(None, None, None)
            except AttributeError:  # called something else by now
                return
        url = c.url(r.choice(TAILS), how=r.choice(["plain", "chunked"]))
        watch = resources.Watch(c.tmp)
        seen = None
        for p in patches:
            p.start()
        try:
            extract_references_from_url(url, **kw)
        except BaseException as exc:
            seen = type(exc)
        finally:
            for p in patches:
                p.stop()
        patches = None
        error.__traceback__ = error.__context__ = None  # it holds the connection
        watch.judge(obs, url=url, where=where, error=repr(error))
        if seen is not None:
            obs.equal(seen, type(error), "another-error", where=where)
        obs.check(seen is not None or where.startswith("refextract."), "fault-hidden",
                  where=where, error=repr(error))
        obs.input(where, type(error).__name__, i % 50)
        obs.saw("fault in %s: %s" % (where.rsplit(".", 1)[-1], type(error).__name__))


KINDS = {
    "download": (800, 8000, download),
    "errors": (600, 6000, errors),
    "faults": (400, 5000, faults),
}
