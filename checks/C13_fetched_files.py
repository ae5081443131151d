"""C13: files fetched from upstream are served only when complete and matching."""
from vt import boot  # noqa: F401
import hashlib
import json
import os
import threading
from urllib.parse import urljoin, urlsplit
from hypothesis import strategies as st
from vt import clock
from vt.core import Sub, check, check_equal
from vt.gen import weighted, op

LEVEL = "exploration"
TECHNIQUE = "stateful fault-injection property testing: generated sequences of requests against an upstream that truncates, corrupts, mislabels, drops or refuses file downloads, checked against the announced contents"
ASSUMPTIONS = ["a response that is aborted while it is streamed counts as failed",
               "files announced without hash are only damaged in ways that contradict their content length"]

SIZES = [0, 1, 300, 10239, 10240, 10241, 30000, 70000]
HASHES = ["sha256", "sha256", "md5", None]
FAULTS = ["cut", "cut-chunked", "cut-close", "corrupt", "extended", "longer-length", "empty", "404", "500", "403", "drop", "other", "redirect-ok", "chunked-ok", "close-ok"]
GOOD = {"redirect-ok", "chunked-ok", "close-ok", None}
n_st = st.integers(0, 2)
ops = weighted(
    (6, op("fault", n=n_st, kind=st.sampled_from(FAULTS), at=st.integers(0, 100), times=st.sampled_from([0, 0, 1, 2]))),
    (3, op("heal", n=n_st)),
    (9, op("get", n=n_st, how=st.sampled_from(["GET", "GET", "GET", "HEAD", "twice", "abort", "json"]))),
    (2, op("lose", n=n_st)),
    (2, op("push", n=n_st)),
    (1, op("restart")),
    (1, op("page")),
)


def cases():
    return st.fixed_dictionaries(dict(
        files=st.lists(st.fixed_dictionaries(dict(size=st.sampled_from(SIZES), hash=st.sampled_from(HASHES))), min_size=3, max_size=3),
        fmt=st.sampled_from(["html", "json"]), derived=st.booleans(),
        ops=st.lists(ops, min_size=4, max_size=22)))


_up = []


def worker_setup():
    from vt.upstream import Pypi
    clock.install()
    _up.append(Pypi())


def content(n, size):
    block = hashlib.sha256(b"%d" % n).digest()
    return (block * (size // 32 + 1))[:size]


class Run:
    def __init__(self, case, ctx):
        from vt.upstream import File
        from vt.server import Server
        self.case, self.ctx = case, ctx
        up = self.up = _up[0]
        up.projects.clear()
        up.file_fault.clear()
        up.noise = []
        up.fmt = case["fmt"]
        up.page_fault = up.list_fault = None
        self.files = [File("pkg-%d.0.tar.gz" % n, content(n, f["size"]), f["hash"]) for n, f in enumerate(case["files"])]
        up.projects["pkg"] = self.files
        self.faults = [None] * 3
        self.left = [0] * 3
        self.cached = set()
        self.removed = set()
        s = self.server = Server(opts=["--request-timeout", "5"])
        s.login("root")
        s.create_index("root/pypi", user="root", type="mirror", mirror_url=up.url + "/simple/", volatile=True, mirror_cache_expiry=1000000)
        s.create_index("root/target", user="root")
        if case["derived"]:
            s.create_index("root/dev", user="root", bases=["root/pypi"])
        self.links()
        up.take()

    def links(self):
        ix = "root/dev" if self.case["derived"] else "root/pypi"
        base = "/%s/+simple/pkg/" % ix
        r = self.server.get(base, accept="application/vnd.pypi.simple.v1+json")
        check_equal(r.status_code, 200, "simple page")
        self.href = {}
        for f in r.json["files"]:
            self.href[int(f["filename"][4])] = urlsplit(urljoin("http://localhost" + base, f["url"])).path
        check_equal(sorted(self.href), [n for n in range(3) if n not in self.removed], "files on the page")

    def reply(self, n, kind, at):
        from vt.upstream import Reply
        data = self.files[n].content
        pos = len(data) * at // 100
        ct = "application/octet-stream"
        if kind == "cut":
            return Reply(200, data, ct, length=len(data), cut=min(pos, len(data) - 1)) if data else Reply(500)
        if kind == "cut-chunked":
            return Reply(200, data, ct, length="chunked", cut=pos)
        if kind == "cut-close":
            return Reply(200, data[:pos], ct, length=None)
        if kind == "corrupt":
            d = bytearray(data or b"x")
            d[min(pos, len(d) - 1)] ^= 1
            return Reply(200, bytes(d), ct)
        if kind == "extended":
            return Reply(200, data + b"x" * (at + 1), ct)
        if kind == "longer-length":
            return Reply(200, data, ct, length=len(data) + 1 + at)
        if kind == "empty":
            return Reply(200, b"", ct)
        if kind == "other":
            return Reply(200, self.files[(n + 1) % 3].content + b"!", ct)
        if kind == "drop":
            return Reply(drop=True)
        if kind == "redirect-ok":
            return Reply(302, b"", headers=[("Location", self.up.url + "/packages/pkg/" + self.files[n].name + "?again")])
        if kind == "chunked-ok":
            return Reply(200, data, ct, length="chunked")
        if kind == "close-ok":
            return Reply(200, data, ct, length=None)
        return Reply(int(kind), b"<html>no</html>")

    def set_fault(self, n, kind, at, times):
        f = self.files[n]
        if f.hash is None and kind in ("cut-close", "corrupt", "extended", "empty", "other"):
            kind = "cut"      # not detectable by anyone
        if kind == "empty" and not f.content:
            kind = "500"
        if kind == "cut-close" and len(f.content) * at // 100 == len(f.content):
            kind = "close-ok"
        self.faults[n] = kind
        self.left[n] = times

        def fault(file, n=n, kind=kind, at=at):
            from vt.upstream import Reply
            good = Reply(200, file.content, "application/octet-stream", headers=[("Last-Modified", "Thu, 25 Nov 2010 20:00:27 GMT")])
            if self.redirected(n, kind):
                return good
            if times:
                if self.left[n] <= 0:
                    return good
                self.left[n] -= 1
            return self.reply(n, kind, at)
        self.up.file_fault[f.name] = fault

    def redirected(self, n, kind):
        return kind == "redirect-ok" and self.up.requests and self.up.requests[-1][1].endswith("?again")

    def judge(self, n, r, what, bad):
        f = self.files[n]
        if r.status_code == 200 and r.exc is None:
            check(r.body == f.content, "%s: successful response with wrong content (%d bytes instead of %d)" % (what, len(r.body), len(f.content)))
            self.cached.add(n)
        else:
            check(bad, "%s: answered with %s %s although upstream is fine" % (what, r.status_code, r.body[-400:]))
            check(n not in self.cached, "%s: answered with %s although the file is cached" % (what, r.status_code))
            check(r.exc is not None or r.status_code in (404, 502), "%s: status %s" % (what, r.status_code))
            self.ctx.mark("failed-download")

    def state(self, n):
        """(bad now, may become good) of the next download"""
        kind = self.faults[n]
        if kind in GOOD:
            return False
        if self.up.file_fault.get(self.files[n].name) is None:
            return False
        return True

    def next_bad(self, n, times_set):
        return self.state(n) and (not times_set or self.left[n] > 0)

    def do(self, o):
        k, n = o["op"], o.get("n")
        what = json.dumps(o)
        s = self.server
        if k == "fault":
            self.set_fault(n, o["kind"], o["at"], o["times"])
            self.times = getattr(self, "times", {})
            self.times[n] = o["times"]
            return
        if k == "heal":
            self.up.file_fault.pop(self.files[n].name, None)
            self.faults[n] = None
            return
        if k == "page":
            self.links()
            return
        if k == "restart":
            from vt.server import Server
            path, s.own_path = s.path, False
            s.close()
            self.server = Server(path=path, opts=["--request-timeout", "5"])
            self.server.own_path = True
            self.server.tokens = s.tokens
            self.links()
            return
        if n in self.removed:
            return
        bad = self.next_bad(n, getattr(self, "times", {}).get(n))
        if k == "get":
            self.up.take()
            cached = n in self.cached
            how = o["how"]
            if how == "json":
                r = s.get(self.href[n])
                check_equal(r.status_code, 200, "%s: metadata" % what)
                f = self.files[n]
                hs = r.json["result"].get("hash_spec")
                if f.hash:
                    check_equal(hs, f.hash_spec, "%s: hash in metadata" % what)
                return
            if how == "HEAD":
                r = s.request("HEAD", self.href[n])
                if r.status_code == 200 and r.exc is None and not bad and r.headers.get("content-length"):
                    check_equal(int(r.headers["content-length"]), len(self.files[n].content), "%s: content length" % what)
                if cached:
                    check_equal(r.status_code, 200, "%s: status" % what)
                self.after_unknown(n)
                return
            if how == "abort":
                self.abort(n, what)
                self.after_unknown(n)
                return
            if how == "twice":
                rs = []
                ts = [threading.Thread(target=lambda: rs.append(s.get(self.href[n], accept=None))) for _ in range(2)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(30)
                check_equal(len(rs), 2, "%s: answers" % what)
                rs.sort(key=lambda r: r.status_code != 200 or r.exc is not None)
                for r in rs:
                    if r.status_code == 200 and r.exc is None:
                        check(r.body == self.files[n].content, "%s: successful response with wrong content" % what)
                        self.cached.add(n)
                    elif not bad:
                        check(False, "%s: answered with %s %s although upstream is fine" % (what, r.status_code, r.text[-600:]))
                self.ctx.label("concurrent")
            else:
                r = s.get(self.href[n], accept=None)
                self.judge(n, r, what, bad)
            if cached:
                check_equal([x[1] for x in self.up.take() if "/packages/" in x[1]], [], "%s: downloads of a cached file" % what)
                self.ctx.label("cached")
        elif k == "lose":
            p = self.disk(n)
            if p is not None and os.path.exists(p):
                os.unlink(p)
                self.ctx.mark("lost")
            self.cached.discard(n)
        elif k == "push":
            r = s.send_json("POST", "/root/pypi", dict(name="pkg", version="%d.0" % n, targetindex="root/target"), user="root")
            t = s.get("/root/target/pkg/%d.0" % n)
            if r.status_code == 200:
                check_equal(t.status_code, 200, "%s: pushed version" % what)
                links = [x for x in t.json["result"].get("+links", []) if x["rel"] == "releasefile"]
                check_equal(len(links), 1, "%s: pushed files" % what)
                g = s.get(urlsplit(links[0]["href"]).path, accept=None)
                check_equal((g.status_code, g.body == self.files[n].content), (200, True), "%s: pushed file has the right content" % what)
                self.ctx.mark("pushed")
            else:
                check(bad and n not in self.cached, "%s: answered with %s %s although upstream is fine or the file is cached" % (what, r.status_code, r.text[-600:]))
                check(r.status_code in (404, 502), "%s: answered with %s" % (what, r.status_code))
                if t.status_code == 200:
                    for x in t.json["result"].get("+links", []):
                        g = s.get(urlsplit(x["href"]).path, accept=None)
                        check_equal((g.status_code, g.body == self.files[n].content), (200, True), "%s: file in the target" % what)
                self.ctx.mark("failed-push")
            self.after_unknown(n)

    def after_unknown(self, n):
        """update what is cached by looking at the disk"""
        p = self.disk(n)
        if p is not None and os.path.exists(p):
            self.cached.add(n)

    def abort(self, n, what):
        """the client goes away while the file is streamed"""
        import io
        import sys
        env = {"REQUEST_METHOD": "GET", "SCRIPT_NAME": "", "PATH_INFO": self.href[n], "QUERY_STRING": "", "SERVER_NAME": "localhost",
               "SERVER_PORT": "80", "HTTP_HOST": "localhost", "SERVER_PROTOCOL": "HTTP/1.1", "REMOTE_ADDR": "127.0.0.1", "wsgi.version": (1, 0),
               "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(b""), "wsgi.errors": sys.stderr, "wsgi.multithread": True,
               "wsgi.multiprocess": False, "wsgi.run_once": False}
        try:
            it = self.server._app(env, lambda *a, **kw: None)
            try:
                for i, x in enumerate(it):
                    if i == 1:
                        break
            finally:
                if hasattr(it, "close"):
                    it.close()
        except Exception:
            pass
        self.ctx.mark("client-abort")

    def disk(self, n):
        """path of the cached file"""
        with self.server.keyfs.read_transaction():
            e = self.server.xom.filestore.get_file_entry(self.href[n][1:])
            if e is None:
                return None
            return os.path.join(self.server.path, "+files", e._storepath)

    def invariant(self, what):
        """whatever is on disk at a final place is right"""
        for n in range(3):
            p = self.disk(n)
            if p is not None and os.path.exists(p):
                with open(p, "rb") as f:
                    data = f.read()
                check(data == self.files[n].content, "after %s: wrong content stored for %s (%d bytes instead of %d)" % (what, self.files[n].name, len(data), len(self.files[n].content)))


def run(case, ctx):
    clock.reset()
    r = Run(case, ctx)
    try:
        for o in case["ops"]:
            r.do(o)
            r.invariant(json.dumps(o))
        # upstream recovers
        r.up.file_fault.clear()
        r.faults = [None] * 3
        for n in range(3):
            if n not in r.removed:
                r.do(dict(op="get", n=n, how="GET"))
        # and is gone: everything is cached
        for n in range(3):
            r.set_fault(n, "drop", 0, 0)
        r.do(dict(op="restart"))
        for n in range(3):
            if n not in r.removed:
                check(n in r.cached, "%s is not cached after a successful download" % r.files[n].name)
                r.do(dict(op="get", n=n, how="GET"))
        r.invariant("the end")
        check(not r.up.errors, "harness: %r" % r.up.errors)
    finally:
        r.server.close()


def subs():
    return [Sub("downloads", cases, run, quick=350, thorough=12000, rule="histories of damaged downloads and requests; non-trivial if a download failed, was aborted, lost or pushed", case_timeout=100)]
