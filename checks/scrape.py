"""C32: the download script over symbolic answers, in a scratch directory with the
network library replaced."""
import builtins
import os
import shutil
import sys
import tempfile
import types

from engine import loader
from engine.core import And, Or, Not, ite
from engine.runner import harness

FILE = "data/scrape_data.py"
LOG = "http://tenhou.net/0/?log="
FETCH = "https://tenhou.net/0/log/?"
# what a page may hold, {} standing for the link of the n-th log
ITEMS = {
    "plain": ('<a href="%s{}">x</a>' % LOG, True),
    "quoted": ("<a href='%s{}'>x</a>" % LOG, True),
    "attributes": ('<a class="l" target="_blank" href="%s{}" rel="x">x</a><br>' % LOG, True),
    "line": ('\n<td>00:12 | 25 | <a href="%s{}">\u724c\u8b5c</a> | A(+50.0) B(-50.0)</td>\n' % LOG, True),
    "other": ('<a href="http://tenhou.net/0/?wg={}">x</a>', False),
    "foreign": ('<a href="http://example.org/?log={}">x</a>', False),
    "text": ("%s{} <b>%s{}</b>" % (LOG, LOG), False),
}
NAMES = ["scc20210101.html", "notes.txt", "b.html"]


class Answer:
    def __init__(self, status, body):
        self.status_code = status
        self.content = body
        self.text = body.decode("latin-1")

    @property
    def ok(self):
        return self.status_code < 400

    def iter_content(self, n=1):
        for i in range(0, len(self.content), n or 1):
            yield self.content[i:i + n]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _pages(tier):
    out = [(0, k, j) for k in ITEMS for j in ("plain",)] + [(1, "plain", "line"), (2, "line", "quoted"), (2, "attributes", "foreign")]
    return out if tier == "quick" else out + [(n, k, j) for n in (0, 1, 2) for k in ITEMS for j in ITEMS]


@harness("C32", variants=_pages, modules=("gameinfo",), covers=("saved", "failed", "ignored"), validate=4,
         bounds="two directories' files with up to four links of every form (quotes, further attributes, other targets, bare text), beside a file that is no page; every combination of HTTP status codes 100..599")
def downloads(ctx, M, second, a, b):
    asked = []
    plan = {}
    pages = {NAMES[0]: ["plain", a], NAMES[1]: ["plain"], NAMES[second]: ["plain", a, b] if second == 0 else [b, "line"]}
    d = tempfile.mkdtemp()
    old = os.getcwd()
    try:
        os.makedirs(d + "/raw/2021")
        os.makedirs(d + "/processed/2021")
        n = 0
        for name, items in pages.items():
            text = "<html><body>"
            for it in items:
                gid = "20210101%02dgm-00a9-0000-%08x" % (n, n * 7919)
                t, real = ITEMS[it]
                text += t.format(gid, gid)
                if real and name.endswith(".html"):
                    plan[gid] = (ctx.int("status%d" % n, 100, 599), b"<mjloggm>%d \r\n\xe7\x89\x8c</mjloggm>" % n)
                else:
                    ctx.cover("ignored")
                n += 1
            with open("%s/raw/2021/%s" % (d, name), "w", encoding="utf-8") as f:
                f.write(text + "</body></html>")
        os.chdir(d)

        def get(url, *x, **k):
            asked.append(url)
            gid = url[len(FETCH):] if url.startswith(FETCH) else None
            return Answer(*plan.get(gid, (200, b"unexpected")))

        req = types.ModuleType("requests")
        req.get = get
        req.codes = types.SimpleNamespace(ok=200)
        req.exceptions = types.SimpleNamespace(RequestException=OSError)
        req.RequestException = OSError

        class Session:
            headers = {}

            def get(self, *x, **k):
                return get(*x, **k)

            def __enter__(self):
                return self

            def __exit__(self, *x):
                pass

            def close(self):
                pass

        req.Session = req.session = Session
        had = sys.modules.get("requests")
        sys.modules["requests"] = req
        try:
            path = os.path.join(loader.REPO, loader.PKG, FILE)
            with open(path, encoding="utf-8") as f:
                code = compile(f.read(), os.path.realpath(path), "exec")
            space = {"__name__": "__main__", "__file__": path, "print": lambda *x, **k: None}
            if M.symbolic:
                space.update(loader.BUILTIN_SHIMS)
            exec(code, space)
        finally:
            if had is None:
                del sys.modules["requests"]
            else:
                sys.modules["requests"] = had
        stored = {f: open("processed/2021/" + f, "rb").read() for f in os.listdir("processed/2021")}
    finally:
        os.chdir(old)
        shutil.rmtree(d)
    ctx.check(sorted(asked) == sorted(FETCH + g for g in plan), "every-log-asked-for-once", asked)
    for gid, (status, body) in plan.items():
        got = stored.pop(gid + ".log", None)
        ctx.check(ite(status == 200, 1, 0) == (0 if got is None else 1), "stored-when-answered", (gid, status))
        ctx.check(got is None or got == body, "stored-unchanged", gid)
        ctx.cover("saved", got is not None)
        ctx.cover("failed", got is None)
    ctx.check(not stored, "nothing-else-stored", sorted(stored))
