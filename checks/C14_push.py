"""C14: a push copies a release completely and exactly, or not at all."""
from vt import boot  # noqa: F401
import hashlib
import json
import threading
from urllib.parse import quote, urlsplit
from hypothesis import strategies as st
from vt.core import Sub, check
from vt.gen import weighted, op
from vt import observe, ops

LEVEL = "exploration"
TECHNIQUE = "stateful generation of releases and pushes with a metamorphic oracle (target view after = source view, everything else untouched, rejected push = no change), and a push into a second real server as round trip"
ASSUMPTIONS = ["files, documentation and test results which only the target had for the release stay there",
               "the log of a file and the name of a test result file may differ between source and target",
               "a push to an external index is no transaction: only a push whose uploads are all accepted is compared"]

IX = ["u1/a", "u1/nv", "u2/c"]
NAMES = ["pkg", "Foo.Bar", "foo-bar", "x_y"]
VERS = ["1.0", "1.0.1", "2.0a1", "1!1.0", "1.0+l.1"]
TYPES = ["sdist", "zip", "wheel", "egg"]
CONT = [b"", b"a", b"b", b"\x00\xff\r\n" * 300, b"x" * 70000]
WHO = ["u1", "u2", "root", "u3", None]

_ix = st.integers(0, 2)
_n = weighted((4, st.just(0)), (2, st.integers(1, 2)), (1, st.integers(0, 3)))
_v = weighted((4, st.just(0)), (2, st.just(1)), (1, st.integers(0, 4)))
_c = st.integers(0, 4)
_text = weighted((3, st.sampled_from(["", "UNKNOWN", "s", "<4 & \u00e9", "x\ny", "a, b", "x\r\ny", " lead", ">=3.6"])), (1, st.text(st.characters(blacklist_categories=("Cs", "Cc")), max_size=20)))
_meta = st.dictionaries(st.sampled_from(["summary", "requires_python", "classifiers", "license", "author", "project_urls", "description", "keywords", "provides_extras", "requires_dist", "home_page", "description_content_type"]), _text, max_size=5)
_docs = st.sampled_from([None, None, None, "no_docs", "only_docs"])


def op_table(push=True):
    t = [
        (7, op("upload", ix=_ix, n=_n, v=_v, c=_c, t=st.sampled_from(TYPES), meta=_meta)),
        (4, op("tox", ix=_ix, w=st.integers(0, 9), c=st.integers(0, 3))),
        (3, op("doc", ix=_ix, n=_n, v=_v, c=_c)),
        (2, op("submit", ix=_ix, n=_n, v=_v, meta=_meta)),
        (1, op("delete", ix=_ix, w=st.integers(0, 9))),
        # several files of one release with their test results
        (3, op("release", ix=_ix, n=_n, v=_v, files=st.lists(st.tuples(st.sampled_from(TYPES), _c), min_size=2, max_size=4, unique_by=lambda x: x[0]).map(lambda x: [list(y) for y in x]),
               tox=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=4), doc=st.sampled_from([None, None, 1]), meta=_meta)),
    ]
    if push:
        t += [(9, op("push", ix=_ix, to=_ix, n=_n, v=_v, who=weighted((5, st.none()), (1, st.integers(0, 4))), docs=_docs, m=st.sampled_from(["POST", "PUSH"]), w=weighted((6, st.integers(0, 9)), (1, st.none()))))]
    return weighted(*t)


def cases():
    return st.fixed_dictionaries(dict(
        ops=st.lists(op_table(), min_size=10, max_size=28), inherit=st.booleans(), acl=st.sampled_from([["u1"], ["u1", "u2"], [":ANONYMOUS:"]])))


def setup(s, case):
    for u in ("u1", "u2", "u3"):
        s.create_user(u)
    s.login("root", "")
    s.create_index("u1/a", volatile=True, bases=[])
    s.create_index("u1/nv", volatile=False, bases=[], acl_upload=case["acl"])
    s.create_index("u2/c", volatile=True, bases=["u1/a"] if case["inherit"] else [])


def owner(ix):
    return ix.split("/")[0]


def content(s, href):
    r = s.get(urlsplit(href).path, accept=None)
    check(r.status_code == 200, lambda: "file %s -> %s" % (href, r.status_code))
    return hashlib.sha256(r.body).hexdigest()


class Release:
    """what an index itself shows of a release"""

    def __init__(self, s, ix, name, version):
        self.files, self.tox, self.docs, self.meta, self.simple = {}, {}, {}, None, {}
        self.hrefs = {}
        # ask for the project without the bases, as inherited releases are not pushed
        r = s.get("/%s/%s?ignore_bases" % (ix, quote(ops.norm(name))))
        d = r.json["result"].get(version) if r.status_code == 200 else None
        if d is None:
            return
        self.meta = {k: v for k, v in d.items() if k not in ("+links", "+shadowing")}
        for link in d.get("+links", ()):
            base = urlsplit(link["href"]).path.rsplit("/", 1)[1]
            h = content(s, link["href"])
            spec = link.get("hash_spec")
            if spec and spec.startswith("sha256="):
                check(spec == "sha256=" + h, lambda: "%s has other content than its hash" % link["href"])
            if link["rel"] == "releasefile":
                check(base not in self.files, "file %s twice" % base)
                self.files[base] = h
                self.hrefs[base] = urlsplit(link["href"]).path
                self.tox.setdefault(base, [])
            elif link["rel"] == "doczip":
                self.docs[base] = h
            elif link["rel"] == "toxresult":
                fb = urlsplit(link["for_href"]).path.rsplit("/", 1)[1]
                self.tox.setdefault(fb, []).append(h)
        for v in self.tox.values():
            v.sort()
        page = observe.simple_page(s, ix, ops.norm(name))
        if self.files and page and not isinstance(page[0], int):
            for fn, path, frag, rp, yanked in page:
                if path in self.hrefs.values():
                    self.simple[fn] = (frag, rp, yanked)


class Run:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        self.rel = []

    def known(self, ix):
        """releases an index itself has (name, version)"""
        out = []
        r = self.s.get("/" + ix)
        for p in sorted(r.json["result"]["projects"]):
            d = self.s.get("/%s/%s?ignore_bases" % (ix, quote(p)))
            if d.status_code == 200:
                for v in sorted(d.json["result"]):
                    out.append((p, v))
        return out

    def snap(self, ix):
        """everything an index itself shows, with logs, times and contents"""
        s = self.s
        cfg = s.get("/" + ix).json["result"]
        out = {(): {k: v for k, v in cfg.items() if k != "projects"}}
        for p in sorted(cfg["projects"]):
            d = s.get("/%s/%s?ignore_bases" % (ix, quote(p)))
            for v, data in (d.json["result"] if d.status_code == 200 else {}).items():
                out[(p, v)] = data, [content(s, x["href"]) for x in data.get("+links", ())]
        return out

    def do(self, o):
        s, k = self.s, o["op"]
        ix = IX[o["ix"]]
        u = owner(ix)
        name, v = (NAMES[o["n"]], VERS[o["v"]]) if "n" in o else (None, None)
        if k == "upload":
            r = s.upload(ix, name, v, ops.filename(name, v, o["t"]), CONT[o["c"]], user=u, extra=sorted(o["meta"].items()))
            check(r.status_code in (200, 409), lambda: "upload -> %s" % r)
        elif k == "release":
            for typ, c in o["files"]:
                self.do(dict(op="upload", ix=o["ix"], n=o["n"], v=o["v"], c=c, t=typ, meta=o["meta"]))
            hrefs = Release(s, ix, name, v).hrefs
            for w, c in o["tox"]:
                b = sorted(hrefs)[w % len(hrefs)]
                r = s.request("POST", hrefs[b], json.dumps(dict(testenvs={}, n=c)).encode(), headers={"Accept": "application/json"}, user=u)
                check(r.status_code == 200, lambda: "tox result -> %s" % r)
            if o["doc"]:
                self.do(dict(op="doc", ix=o["ix"], n=o["n"], v=o["v"], c=o["doc"]))
        elif k == "submit":
            r = s.post_form("/%s/" % ix, [(":action", "submit"), ("name", name), ("version", v), *sorted(o["meta"].items())], user=u)
            check(r.status_code == 200, lambda: "submit -> %s" % r)
        elif k == "doc":
            r = s.upload(ix, name, v, "%s-%s.doc.zip" % (name, v), CONT[o["c"]], user=u, action="doc_upload")
            check(r.status_code in (200, 409, 400), lambda: "doc upload -> %s" % r)
        elif k in ("tox", "delete"):
            rels = [(p, ver, b, h) for p, ver in self.known(ix) for b, h in Release(s, ix, p, ver).hrefs.items()]
            if not rels:
                return
            p, ver, b, h = rels[o["w"] % len(rels)]
            if k == "tox":
                r = s.request("POST", h, json.dumps(dict(testenvs={}, n=o["c"])).encode(), headers={"Accept": "application/json"}, user=u)
                check(r.status_code == 200, lambda: "tox result -> %s" % r)
            else:
                s.delete(h, user=u)
        elif k == "push":
            self.push(o, ix, name, v)

    def push(self, o, ix, name, v):
        s, to = self.s, IX[o["to"]]
        rels = self.known(ix)
        if o["w"] is not None and rels:
            name, v = rels[o["w"] % len(rels)]
        who = owner(to) if o["who"] is None else WHO[o["who"]]
        src, before = Release(s, ix, name, v), Release(s, to, name, v)
        others = {x: self.snap(x) for x in IX}
        serial = s.serial
        data = dict(name=name, version=v, targetindex=to)
        if o["docs"]:
            data[o["docs"]] = True
        acl = s.get("/" + to).json["result"]["acl_upload"]
        r = s.send_json(o["m"], "/" + ix, data, user=who)
        what = "push %s %s %s -> %s %s by %s: %s" % (name, v, ix, to, o["docs"], who, r.status_code)
        files = {} if o["docs"] == "only_docs" else src.files
        docs = {} if o["docs"] == "no_docs" else src.docs
        allowed = ":ANONYMOUS:" in acl or who in acl
        collide = to == IX[1] and (set(files) & set(before.files) or set(docs) & set(before.docs))
        should = src.meta is not None and (files or docs) and allowed and not collide
        check((r.status_code == 200) == bool(should), lambda: "%s, expected %s: %s" % (what, "success" if should else "rejection", r.text[:300]))
        now = {x: self.snap(x) for x in IX}
        if r.status_code != 200:
            check(400 <= r.status_code < 500, lambda: "%s %s" % (what, r.text[-300:]))
            check(s.serial == serial, "%s: a rejected push made a commit" % what)
            check(now == others, lambda: "%s: a rejected push changed %s" % (what, observe.diff(others, now)))
            self.ctx.label("rejected")
            if collide:
                self.ctx.mark("collision")
            return
        after = Release(s, to, name, v)
        check(after.meta == src.meta, lambda: "%s: metadata of the target %r, of the source %r" % (what, after.meta, src.meta))
        want = dict(before.files, **files)
        check(after.files == want, lambda: "%s: files of the target %r, expected %r" % (what, after.files, want))
        wtox = dict(before.tox, **{b: src.tox[b] for b in files})
        check(after.tox == wtox, lambda: "%s: test results of the target %r, expected %r" % (what, after.tox, wtox))
        wdocs = dict(before.docs, **docs)
        check(after.docs == wdocs, lambda: "%s: documentation of the target %r, expected %r" % (what, after.docs, wdocs))
        for b in files:
            check(after.simple.get(b) == src.simple.get(b), lambda: "%s: simple page of the target has %r, of the source %r" % (what, after.simple.get(b), src.simple.get(b)))
        for x in IX:
            a, b = others[x], now[x]
            if x == to:
                a = {k: z for k, z in a.items() if k != (ops.norm(name), v)}
                b = {k: z for k, z in b.items() if k != (ops.norm(name), v)}
                check(a == b, lambda: "%s changed other releases of the target: %s" % (what, observe.diff(a, b)))
            else:
                check(a == b, lambda: "%s changed %s: %s" % (what, x, observe.diff(a, b)))
        self.ctx.label("pushed")
        if len(files) > 1 or any(src.tox.values()) or (files and docs):
            self.ctx.mark()
        if before.files or before.docs:
            self.ctx.label("over-existing")
        if ix == to:
            self.ctx.label("self")


def run(case, ctx):
    from vt.server import Server
    with Server(start=()) as s:
        setup(s, case)
        x = Run(s, ctx)
        for o in case["ops"]:
            x.do(o)


# -- to another server

def ext_cases():
    return st.fixed_dictionaries(dict(
        ops=st.lists(op_table(push=False).map(lambda o: dict(o, ix=0)), min_size=3, max_size=9), w=st.integers(0, 9),
        register=st.booleans(), docs=_docs, refuse=weighted((3, st.none()), (1, st.sampled_from(["password", "nopermission", "noindex", "down", "collision"])))))


class Http:
    """a server behind a real socket"""

    def __init__(self, app):
        from socketserver import ThreadingMixIn
        from wsgiref.simple_server import WSGIServer, WSGIRequestHandler, make_server

        class H(WSGIRequestHandler):
            def log_message(self, *a):
                pass

        class S(ThreadingMixIn, WSGIServer):
            daemon_threads = True
        self.srv = make_server("127.0.0.1", 0, app, server_class=S, handler_class=H)
        self.thread = threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True)
        self.thread.start()
        self.url = "http://127.0.0.1:%d" % self.srv.server_port

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()
        self.thread.join()


def run_ext(case, ctx):
    from vt.server import Server
    with Server(start=()) as s, Server(start=()) as t:
        setup(s, dict(acl=["u1"], inherit=False))
        x = Run(s, ctx)
        for o in case["ops"]:
            x.do(o)
        t.create_user("tu", "tpw")
        t.create_user("nobody", "tpw")
        t.create_index("tu/t", bases=[], volatile=True)
        rels = x.known("u1/a")
        if not rels:
            return
        name, v = rels[case["w"] % len(rels)]
        src = Release(s, "u1/a", name, v)
        http = Http(t._app)
        try:
            d = dict(name=name, version=v, posturl=http.url + "/tu/t/", username="tu", password="tpw", register_project=case["register"])
            if case["docs"]:
                d[case["docs"]] = True
            if case["refuse"] == "password":
                d["password"] = "wrong"
            elif case["refuse"] == "nopermission":
                d["username"] = "nobody"
            elif case["refuse"] == "noindex":
                d["posturl"] += "x/"
            elif case["refuse"] == "down":
                d["posturl"] = "http://127.0.0.1:1/tu/t/"
            elif case["refuse"] == "collision":
                # one of the files is refused by the target
                if not src.files or case["docs"] == "only_docs":
                    return
                fn = sorted(src.files)[case["w"] % len(src.files)]
                t.upload("tu/t", name, v, fn, b"older", user="tu")
                rr = t.send_json("PATCH", "/tu/t", dict(volatile=False), user="tu")
                check(rr.status_code == 200, "volatile=False")
            before = observe.observe(s, keep_time=True)
            tserial = t.serial
            r = s.send_json("POST", "/u1/a", d, user="u1")
            check(observe.observe(s, keep_time=True) == before, "an external push changed the source")
        finally:
            http.close()
        files = {} if case["docs"] == "only_docs" else src.files
        docs = {} if case["docs"] == "no_docs" else src.docs
        what = "external push of %s %s (%s): %s %s" % (name, v, {k: z for k, z in d.items() if k != "password"}, r.status_code, r.text[:300])
        if not files and not docs:
            check(r.status_code == 404, what)
            check(t.serial == tserial, "a rejected push changed the target")
            return
        if case["refuse"]:
            check(r.status_code == 502, lambda: "refused by the target: " + what)
            if case["refuse"] != "collision":
                check(t.serial == tserial, "a rejected push changed the target")
            ctx.mark("refused")
            return
        check(r.status_code == 200, what)
        got = Release(t, "tu/t", name, v)
        check(got.files == files, lambda: "%s: files of the target %r, expected %r" % (what, got.files, files))
        check(list(got.docs.values()) == list(docs.values()), lambda: "%s: documentation of the target %r, expected %r" % (what, got.docs, docs))

        def ns(meta):
            return {k: ops_norm(z) for k, z in meta.items() if k != "metadata_version"}
        if files or case["register"]:
            check(ns(got.meta) == ns(src.meta), lambda: "%s: metadata of the target %r, of the source %r" % (what, ns(got.meta), ns(src.meta)))
        ctx.mark()


def ops_norm(v):
    # forms carry text with CRLF line ends
    if isinstance(v, str):
        return v.replace("\r\n", "\n")
    if isinstance(v, list):
        return [ops_norm(x) for x in v]
    return v


# -- from a mirror, files may not be fetched yet

_ups = []


def worker_setup():
    from vt.upstream import Pypi
    _ups.append(Pypi())


def mirror_cases():
    f = st.fixed_dictionaries(dict(t=st.sampled_from(TYPES), c=_c, hash=st.sampled_from(["sha256", "md5", None]), have=st.booleans(), fault=weighted((4, st.none()), (1, st.sampled_from(["404", "cut", "wrong"])))))
    return st.fixed_dictionaries(dict(files=st.lists(f, min_size=1, max_size=3, unique_by=lambda x: x["t"]), external=st.booleans(), again=st.booleans(), volatile=st.booleans()))


def run_mirror(case, ctx):
    from vt.server import Server
    from vt.upstream import File, Reply
    up = _ups[0]
    up.projects, up.file_fault = {}, {}
    want, bad = {}, False
    files = []
    for f in case["files"]:
        fn = ops.filename("pkg", "1.0", f["t"])
        files.append(File(fn, CONT[f["c"]], hash=f["hash"]))
        want[fn] = hashlib.sha256(CONT[f["c"]]).hexdigest()
    up.projects["pkg"] = files
    with Server() as s, Server(start=()) as t:
        s.create_user("u1")
        s.create_index("u1/m", type="mirror", mirror_url=up.url + "/simple/")
        s.create_index("u1/t", bases=[], volatile=case["volatile"])
        t.create_user("tu", "tpw")
        t.create_index("tu/t", bases=[], volatile=True)
        if not any(f["have"] for f in case["files"]):
            r = s.get("/u1/m/+simple/pkg/", accept="text/html")
            check(r.status_code == 200, "simple page")
        for f, o in zip(case["files"], files):
            if f["have"]:
                page = observe.simple_page(s, "u1/m", "pkg")
                path = [p for n, p, *_ in page if n == o.name]
                check(path, "file is not listed")
                r = s.get(quote(path[0]), accept=None)
                check(r.status_code == 200, "fetch")
            elif f["fault"]:
                if f["fault"] == "wrong" and not f["hash"]:
                    continue      # nobody can tell
                bad = True
                up.file_fault[o.name] = {
                    "404": lambda f_: Reply(404, b""), "cut": lambda f_: Reply(200, f_.content + b"12345", "application/octet-stream", cut=len(f_.content)),
                    "wrong": lambda f_: Reply(200, b"other" + f_.content, "application/octet-stream")}[f["fault"]]
        http = Http(t._app)
        try:
            done = False
            for _ in range(2 if case["again"] else 1):
                if case["external"]:
                    target, ix = t, "tu/t"
                    d = dict(name="pkg", version="1.0", posturl=http.url + "/tu/t/", username="tu", password="tpw")
                else:
                    target, ix = s, "u1/t"
                    d = dict(name="pkg", version="1.0", targetindex="u1/t")
                r = s.send_json("POST", "/u1/m", d, user="u1")
                what = "push from a mirror (%s): %s %s" % (case, r.status_code, r.text[-300:])
                got = Release(target, ix, "pkg", "1.0")
                if bad:
                    check(r.status_code in (404, 502), lambda: "file not available: " + what)
                    if not case["external"]:
                        check(got.meta is None, lambda: "a rejected push changed the target: " + what)
                    ctx.mark("unavailable")
                    bad = False
                    up.file_fault = {}
                elif done and not case["external"] and not case["volatile"]:
                    check(r.status_code == 409, lambda: "second push to a non-volatile index: " + what)
                    check(got.files == want, lambda: "%s: files %r, expected %r" % (what, got.files, want))
                else:
                    check(r.status_code == 200, what)
                    check(got.files == want, lambda: "%s: files %r, expected %r" % (what, got.files, want))
                    done = True
                    ctx.mark("pushed")
        finally:
            http.close()


def subs():
    return [Sub("mirror", mirror_cases, run_mirror, quick=100, thorough=3000, rule="a release of a mirror was pushed, or could not be because a file was not available", case_timeout=100),
            Sub("pushes", cases, run, quick=160, thorough=6000, rule="a release with several files, test results or documentation was pushed, or a push met a file the target has", case_timeout=150),
            Sub("external", ext_cases, run_ext, quick=120, thorough=4000, rule="a release was transferred to the other server or refused by it", case_timeout=150)]
