"""C12: a mirror shows what upstream has, as fresh as its expiry rules allow."""
from vt import boot  # noqa: F401
import copy
import json
import time
from urllib.parse import quote, urljoin, urlsplit
from hypothesis import strategies as st
from vt import clock
from vt.core import Sub, Violation, check, check_equal
from vt.gen import weighted

LEVEL = "exploration"
TECHNIQUE = "stateful model-based property testing against a programmable upstream HTTP server and a controlled clock, with a reference model of the cache rules"
ASSUMPTIONS = ["upstream runs on the loopback interface; expiry is driven by advancing time.time()",
               "a project never seen before may be answered as missing (404) or as upstream error (502) while upstream fails, and until the expiry time after that"]

EXPIRY = 300
PROJECTS = ["pkg", "Foo.Bar"]


def norm(p):
    return p.lower().replace(".", "-")


file_st = st.fixed_dictionaries(dict(v=st.integers(1, 4), typ=st.sampled_from([0, 0, 1]), content=st.integers(0, 1), hash=st.sampled_from(["sha256", "sha256", "sha256", "md5", None]),
                                     rp=st.sampled_from([None, None, ">=3.6", "<4,>=3", "!=3.0.*"]), yank=st.sampled_from([None, None, None, True, "broken <&\" ü"])))
p_st = st.sampled_from([0, 0, 0, 1])


def op(name, **kw):
    return st.fixed_dictionaries(dict(op=st.just(name), **kw))


FAULTS = ["404", "500", "503", "403", "drop", "cut", "redirect-loop", "badjson", "html-error"]
ops = weighted(
    (4, op("set", p=p_st, files=st.lists(file_st, max_size=4, unique_by=lambda f: (f["v"], f["typ"])))),
    (1, op("remove", p=p_st)),
    # small changes of one file, seen after the expiry time
    (4, op("tweak", p=p_st, i=st.integers(0, 3), what=st.sampled_from(["yank", "yank", "rp", "rp", "hash", "content", "drop", "last"]), rp=st.sampled_from([None, ">=3.6", "!=3.0.*"]),
           yank=st.sampled_from([None, True, "why"]), dt=st.sampled_from([0, EXPIRY + 1, EXPIRY + 1]))),
    (2, op("fault", kind=st.sampled_from(FAULTS), where=st.sampled_from(["page", "list", "both"]))),
    (3, op("heal")),
    (3, op("tick", dt=st.sampled_from([1, 100, EXPIRY + 1, EXPIRY + 1, 5000]))),
    (9, op("get", p=p_st, fmt=st.sampled_from(["html", "html", "json", "pip"]), sp=st.booleans())),
    (2, op("refresh", p=p_st)),
    (2, op("list")),
    (1, op("restart")),
    (1, op("fmt", fmt=st.sampled_from(["html", "json"]))),
    (1, op("etag", on=st.booleans())),
    (1, op("serial", n=st.integers(-3, 5))),
    (1, op("href", how=st.sampled_from(["relative", "absolute"]))),
    (1, op("vdata", p=p_st)),
)


def cases():
    return st.fixed_dictionaries(dict(
        first=st.lists(file_st, min_size=1, max_size=3, unique_by=lambda f: (f["v"], f["typ"])),
        fmt=st.sampled_from(["html", "json"]), no_list=st.sampled_from([False, False, False, True]), derived=st.booleans(),
        charset=st.sampled_from([False, False, False, True]),
        ops=st.lists(ops, min_size=3, max_size=22)))


_up = []


def worker_setup():
    from vt.upstream import Pypi
    clock.install()
    _up.append(Pypi())


def mkfile(project, f):
    from vt.upstream import File
    base = project.replace(".", "_")
    name = "%s-%d.0%s" % (base, f["v"], [".tar.gz", "-py3-none-any.whl"][f["typ"]])
    return File(name, ("%s %d" % (name, f["content"])).encode(), f["hash"], f["rp"], f["yank"])


def shown(files):
    return sorted((f.name, f.hash_spec, f.requires_python, f.yanked) for f in files)


def fault_reply(kind, up):
    from vt.upstream import Reply
    if kind == "404":
        return Reply(404, b"nope")
    if kind in ("500", "503", "403"):
        return Reply(int(kind), b"<html><a href='x-1.0.zip'>x-1.0.zip</a></html>")
    if kind == "drop":
        return Reply(drop=True)
    if kind == "cut":
        return Reply(200, b"<html><body>" + b"<!-- -->" * 50, length=4000, cut=200)
    if kind == "redirect-loop":
        return Reply(302, b"", headers=[("Location", up.url + "/simple/loop/")])
    if kind == "badjson":
        return Reply(200, b'{"meta": {"api-ver', "application/vnd.pypi.simple.v1+json")
    if kind == "html-error":
        return Reply(502, b"<html>")
    raise AssertionError(kind)


class Run:
    def __init__(self, case, ctx, timeout=5):
        from vt.upstream import JSON_TYPE
        self.timeout = timeout
        self.case, self.ctx = case, ctx
        up = self.up = _up[0]
        up.projects.clear()
        up.fmt = case["fmt"]
        up.use_etag = True
        up.serial = None
        up.page_fault = up.list_fault = None
        up.href = "relative"
        up.json_ctype = JSON_TYPE + ("; charset=utf-8" if case["charset"] else "")
        up.noise = ['<a href="other.txt">other.txt</a>', '<a href="../../x/zzz-1.0.zip">zzz-1.0.zip</a>', '<a>nothing</a>', '<a href="mailto:x@y">m</a>']
        up.projects["pkg"] = [mkfile("pkg", f) for f in case["first"]]
        up.take()
        # reference model
        self.good = {}        # project -> last good files
        self.checked = {}     # project -> time of the last conclusive answer
        self.serial_seen = {}
        self.fuzzy = {}       # project -> until when a missing answer is acceptable
        self.names = None     # last project list
        self.names_at = None
        self.server = self.mk()

    def take(self):
        """requests since the last call; notes when the project list was loaded"""
        asked = self.up.take()
        if any(urlsplit(r[1]).path == "/simple/" for r in asked):
            self.names_at = clock.now()
        return asked

    def mk(self, path=None):
        from vt.server import Server
        opts = ["--request-timeout", str(self.timeout)]
        s = Server(path=path, opts=opts) if path else Server(opts=opts)
        if path is None:
            s.login("root")
            kw = dict(mirror_no_project_list=True) if self.case["no_list"] else {}
            r = s.create_index("root/pypi", user="root", type="mirror", mirror_url=self.up.url + "/simple/", volatile=False, mirror_cache_expiry=EXPIRY, **kw)
            assert r.status_code == 200, r
            if self.case["derived"]:
                s.create_index("root/dev", user="root", bases=["root/pypi"])
        return s

    def healthy(self):
        return self.up.page_fault is None

    def page(self, p, fmt, spelled):
        name = PROJECTS[p] if spelled else norm(PROJECTS[p])
        index = "root/dev" if self.case["derived"] else "root/pypi"
        url = "/%s/+simple/%s/" % (index, name)
        headers = {}
        accept = "text/html"
        if fmt == "json":
            accept = "application/vnd.pypi.simple.v1+json"
        elif fmt == "pip":
            accept, headers = "*/*", {"User-Agent": "pip/23 x"}
        r = self.server.get(url, accept=accept, headers=headers)
        if r.status_code == 302:
            url = urlsplit(r.headers["Location"]).path
            r = self.server.get(url, accept=accept, headers=headers)
        if r.status_code != 200:
            return r.status_code, r
        out = []
        if fmt == "json":
            for f in r.json["files"]:
                h = f["hashes"]
                out.append((f["filename"], "=".join(next(iter(h.items()))) if h else "", f.get("requires-python"), f.get("yanked")))
        else:
            from vt.observe import anchors
            for attrs, text in anchors(r.text):
                y = attrs.get("data-yanked")
                out.append((text, urlsplit(attrs["href"]).fragment, attrs.get("data-requires-python"), None if y is None else (y or True)))
        return 200, sorted(out, key=repr)

    def age(self, p):
        t = self.checked.get(p)
        return None if t is None else clock.now() - t

    def known_remote(self, p):
        """whether the mirror may/must believe that the project exists"""
        title, files = self.up.find(PROJECTS[p])
        return files is not None

    def fetched(self, p):
        """upstream was asked and answered properly: the answer is now cached"""
        files = self.up.find(PROJECTS[p])[1]
        self.checked[p] = clock.now()
        if files is None:
            return
        self.good[p] = list(files)
        self.fuzzy.pop(p, None)
        if self.up.serial is not None:
            self.serial_seen[p] = self.up.serial
        else:
            self.serial_seen[p] = -1

    def regressed(self, p):
        s = -1 if self.up.serial is None else self.up.serial
        return p in self.good and s < self.serial_seen.get(p, -1)

    def expect_get(self, p, fmt, spelled, what):
        ctx = self.ctx
        self.take()
        status, got = self.page(p, fmt, spelled)
        asked = [r for r in self.take() if r[1].startswith("/simple/") and r[1] != "/simple/"]
        exists = self.known_remote(p)
        if p in self.good:
            age = self.age(p)
            fresh = age is not None and age < EXPIRY - 5
            if fresh:
                check_equal((status, got if status != 200 else got), (200, sorted(shown(self.good[p]), key=repr)), "%s: page within the expiry time" % what)
                check_equal(asked, [], "%s: upstream requests within the expiry time" % what)
                ctx.label("fresh")
                return
            check(len(asked) >= 1, "%s: upstream was not asked after the expiry time" % what)
            if not self.healthy() or not exists or self.regressed(p):
                check_equal((status, got), (200, sorted(shown(self.good[p]), key=repr)), "%s: page while upstream fails" % what)
                ctx.mark("stale")
                if (self.up.page_fault is not None and self.up.page_fault.status == 404) or (self.healthy() and not exists):
                    self.checked[p] = clock.now()   # a missing project is remembered
                return
            want = sorted(shown(self.up.find(PROJECTS[p])[1]), key=repr)
            check_equal((status, got), (200, want), "%s: page after the expiry time" % what)
            ctx.label("refetched")
            if shown(self.up.find(PROJECTS[p])[1]) != shown(self.good[p]):
                ctx.mark("changed")
            self.fetched(p)
            return
        # never seen successfully
        ok = self.healthy() and exists
        if status == 200:
            check(ok, "%s: got a page %r for a project upstream does not provide (exists=%s)" % (what, got, exists))
            check_equal(got, sorted(shown(self.up.find(PROJECTS[p])[1]), key=repr), "%s: first page" % what)
            ctx.label("first")
            self.fetched(p)
            return
        allowed = {404}
        if not self.healthy() or self.up.list_fault is not None:
            allowed.add(502)
        check(status in allowed, "%s: status %s (%.300r) for a project that %s" % (what, status, got, "exists" if exists else "does not exist"))
        ctx.label("missing")
        if ok and self.up.list_fault is None:
            until = max(self.fuzzy.get(p, 0), (self.names_at or 0) + EXPIRY + 5)
            check(clock.now() < until, "%s: status %s for an existing project, upstream is fine and nothing is cached" % (what, status))
        self.fuzzy[p] = max(self.fuzzy.get(p, 0), clock.now() + EXPIRY + 5)

    def do(self, o):
        up = self.up
        k = o["op"]
        what = json.dumps(o)
        if k == "set":
            up.projects[PROJECTS[o["p"]]] = [mkfile(PROJECTS[o["p"]], f) for f in o["files"]]
            if up.serial is not None:
                up.serial += 1
        elif k == "tweak":
            files = up.projects.get(PROJECTS[o["p"]])
            if files:
                files = list(files)
                i = o["i"] % len(files)
                f = files[i] = copy.copy(files[i])
                if o["what"] == "yank":
                    f.yanked = o["yank"]
                elif o["what"] == "rp":
                    f.requires_python = o["rp"]
                elif o["what"] == "hash":
                    f.hash = {"sha256": "md5", "md5": None, None: "sha256"}[f.hash]
                elif o["what"] == "content":
                    f.content += b"+"
                elif o["what"] == "drop":
                    del files[i]
                elif o["what"] == "last":
                    files.append(files.pop(i))
                up.projects[PROJECTS[o["p"]]] = files
                if up.serial is not None:
                    up.serial += 1
                if o["dt"]:
                    # make sure that it is known before
                    clock.advance(o["dt"])
                    self.expect_get(o["p"], "html", False, what)
        elif k == "remove":
            up.projects[PROJECTS[o["p"]]] = None
        elif k == "fault":
            r = fault_reply(o["kind"], up)
            if o["where"] in ("page", "both"):
                up.page_fault = r
            if o["where"] in ("list", "both"):
                up.list_fault = r
        elif k == "heal":
            up.page_fault = up.list_fault = None
        elif k == "tick":
            clock.advance(o["dt"])
        elif k == "fmt":
            up.fmt = o["fmt"]
        elif k == "etag":
            up.use_etag = o["on"]
        elif k == "serial":
            up.serial = max(0, (up.serial or 10) + o["n"])
        elif k == "href":
            up.href = o["how"]
        elif k == "get":
            self.expect_get(o["p"], o["fmt"], o["sp"], what)
        elif k == "vdata":
            self.vdata(o["p"], what)
        elif k == "refresh":
            self.refresh(o["p"], what)
        elif k == "list":
            self.listing(what)
        elif k == "restart":
            path = self.server.path
            self.server.own_path, keep = False, self.server
            keep.close()
            self.server = self.mk(path)
            self.server.own_path = True
            self.server.tokens = keep.tokens
            self.checked.clear()
            self.names_at = None
            self.fuzzy.clear()
            self.ctx.label("restart")

    def refresh(self, p, what):
        index = "root/dev" if self.case["derived"] else "root/pypi"
        self.take()
        r = self.server.request("POST", "/%s/+simple/%s/refresh" % (index, norm(PROJECTS[p])), user="root")
        asked = [q for q in self.take() if q[1].startswith("/simple/") and q[1] != "/simple/"]
        exists = self.known_remote(p)
        check(r.status_code < 500 or r.status_code == 502, "%s: answered with %s: %s" % (what, r.status_code, r.text[-600:]))
        if r.status_code == 302:
            self.ctx.label("refreshed")
        if p in self.good:
            if self.healthy() and exists and not (self.up.serial is not None and False):
                check_equal(r.status_code, 302, "%s: status" % what)
                check(len(asked) >= 1, "%s: upstream was not asked" % what)
                # a refresh forgets the known serial
                self.serial_seen.pop(p, None)
                self.fetched(p)
            else:
                # failed: what is known is kept, and asked for again
                self.checked.pop(p, None)
                self.recheck(p, what)
        elif self.healthy() and exists and r.status_code == 302 and asked:
            self.fetched(p)
        else:
            self.fuzzy[p] = clock.now() + EXPIRY + 5

    def recheck(self, p, what):
        """after a failed refresh the last good answer is still served"""
        self.take()
        status, got = self.page(p, "html", False)
        check_equal((status, got), (200, sorted(shown(self.good[p]), key=repr)), "%s failed: page afterwards" % what)
        self.ctx.mark("failed-refresh")
        f = self.up.page_fault
        if (f is not None and f.status == 404) or (f is None and not self.known_remote(p)):
            self.checked[p] = clock.now()

    def listing(self, what):
        index = "root/pypi"
        self.take()
        names_at = self.names_at
        r = self.server.get("/%s/+simple/" % index, accept="application/vnd.pypi.simple.v1+json")
        self.take()
        cached = {norm(PROJECTS[p]) for p in self.good}
        if r.status_code != 200:
            raise Violation("%s: project list answered with %s" % (what, r.status_code))
        got = [self.up.norm(x["name"]) for x in r.json["projects"]]
        check_equal(len(set(got)), len(got), "%s: duplicates in project list %r" % (what, got))
        got = set(got)
        if self.case["no_list"]:
            check_equal(got, cached, "%s: projects known locally" % what)
            return
        remote = {self.up.norm(t) for t, f in self.up.projects.items() if f is not None}
        fresh = names_at is not None and clock.now() - names_at < EXPIRY - 5
        if not fresh and self.up.list_fault is None:
            check(got == remote or got == remote | cached, "%s: project list %r, upstream has %r (cached %r)" % (what, got, remote, cached))
            self.names = got
        elif not fresh:
            check(cached <= got, "%s: projects %r missing from the stale list %r" % (what, cached - got, got))

    def vdata(self, p, what):
        """versions as JSON agree with the page"""
        age = self.age(p)
        if p not in self.good or age is None or age >= EXPIRY - 5:
            return
        r = self.server.get("/root/pypi/%s" % norm(PROJECTS[p]))
        check_equal(r.status_code, 200, "%s: status" % what)
        got = {}
        for v, d in r.json["result"].items():
            for link in d.get("+links", ()):
                got.setdefault(v, []).append(urlsplit(link["href"]).path.rsplit("/", 1)[1])
        want = {}
        for f in self.good[p]:
            want.setdefault(f.name.split("-")[1].replace(".tar.gz", ""), []).append(f.name)
        check_equal({k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in want.items()}, "%s: files per version" % what)

    def close(self):
        self.server.close()


def run(case, ctx):
    clock.reset()
    r = Run(case, ctx)
    try:
        for o in [dict(op="get", p=0, fmt="html", sp=False)] + case["ops"]:
            r.do(o)
        # in the end upstream recovers, and everything is right after the expiry
        r.do(dict(op="heal"))
        r.up.serial = None if r.up.serial is None else r.up.serial + 100
        if r.up.serial is None and any(v >= 0 for v in r.serial_seen.values()):
            r.up.serial = 1000
        clock.advance(EXPIRY * 3)
        for p in range(len(PROJECTS)):
            r.fuzzy.clear()
            r.expect_get(p, "html", False, "finally %s" % PROJECTS[p])
        check(not r.up.errors, "harness: %r" % r.up.errors)
    finally:
        r.close()


def slow_cases():
    return st.fixed_dictionaries(dict(
        first=st.lists(file_st, min_size=1, max_size=3, unique_by=lambda f: (f["v"], f["typ"])),
        second=st.lists(file_st, min_size=0, max_size=4, unique_by=lambda f: (f["v"], f["typ"])),
        fmt=st.sampled_from(["html", "json"]), no_list=st.just(False), derived=st.booleans(), charset=st.just(False),
        etag=st.booleans(), also=st.sampled_from([None, None, "get", "vdata"]), outcome=st.sampled_from(["ok", "ok", "ok", "500", "404", "badjson"])))


def run_slow(case, ctx):
    """upstream answers later than the request timeout: clients get the last
    good page, and the late answer is used as soon as it arrived"""
    import threading
    from vt.upstream import Reply
    clock.reset()
    r = Run(case, ctx, timeout=1)
    up = r.up
    up.use_etag = case["etag"]
    try:
        r.do(dict(op="get", p=0, fmt="html", sp=False))
        up.projects["pkg"] = [mkfile("pkg", f) for f in case["second"]]
        old, new = sorted(shown(r.good[0]), key=repr), sorted(shown(up.projects["pkg"]), key=repr)
        clock.advance(EXPIRY + 1)
        bad = case["outcome"] != "ok"
        if bad:
            up.page_fault = fault_reply(case["outcome"], up)
        up.delay = 1.7
        results = []

        def get():
            t = time.monotonic()
            results.append(r.page(0, "html", False) + (time.monotonic() - t,))
        ts = [threading.Thread(target=get) for _ in range(2 if case["also"] == "get" else 1)]
        for t in ts:
            t.start()
        if case["also"] == "vdata":
            x = r.server.get("/root/%s/pkg" % ("dev" if case["derived"] else "pypi"))
            check_equal(x.status_code, 200, "project data while upstream is slow")
        for t in ts:
            t.join(30)
        check_equal(len(results), len(ts), "answered requests")
        for status, got, dt in results:
            check_equal((status, got), (200, old), "page while upstream is slow")
        up.delay = 0
        ctx.mark("slow")
        if bad:
            time.sleep(1.2)
            check_equal(r.page(0, "html", False), (200, old), "page after the late answer failed")
            up.page_fault = None
            clock.advance(EXPIRY + 1)
            check_equal(r.page(0, "html", False), (200, new), "page after upstream recovered")
            return
        # the late answer arrives; upstream is not needed any more for it
        end = time.monotonic() + 10
        up.page_fault = Reply(503)
        while time.monotonic() < end:
            got = r.page(0, "html", False)
            check(got in ((200, old), (200, new)), "page around the late answer: %r" % (got,))
            if got == (200, new):
                break
            time.sleep(0.1)
        check_equal(got, (200, new), "page after the late answer arrived")
        if new != old:
            ctx.label("background-update")
    finally:
        up.delay = 0
        up.page_fault = None
        r.close()


def subs():
    return [Sub("slow", slow_cases, run_slow, quick=40, thorough=600, rule="upstream answers after the request timeout", case_timeout=60), Sub("histories", cases, run, quick=400, thorough=12000, rule="histories of upstream changes, failures, time and requests; non-trivial if a changed or stale page was served", case_timeout=100)]
