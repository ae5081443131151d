"""C25: uploaded documentation is served exactly as uploaded and goes when deleted."""
from vt import boot  # noqa: F401
import io
import os
import shutil
import tempfile
import zipfile
from urllib.parse import quote
from hypothesis import strategies as st
from vt.core import Sub, check, check_equal
from vt.gen import op, weighted

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: histories of documentation uploads and deletions against a reference model, with packed, unpacked and separately unpacked storage, every page of every version read back"
ASSUMPTIONS = ["documentation has an index.html at the top; without one the server shows no documentation",
               "pages are not requested while the background removal of the unpacked pages of a replaced or deleted archive runs"]

PROJECTS = ["pkg", "pkg-1.0", "Other.Pkg"]
VERSIONS = ["1.0", "1.1", "2.0rc1", "1.0-1", "0.9.dev1"]
INDEXES = ["a", "b"]
MODES = ["unpacked", "packed", "path"]
NAMES = ["a.html", "b.txt", "index.html", "d", "e", "\u00e9.html", "sp ace.html", ".hidden", "..x", "x..", "#.html", "a%2fb.html", "Foo.html", "foo.html", "+doc", "_static", "a.js", "x.tar.gz",
         "data.json", "p.fjson", "x.unknownext", "noext", "'q\".html", "~t", "$x.html", "a&b=c.html", "a;b.html", "a+b.html", "long" * 8 + ".html", "\u6f22.css", "q?.html", "img.png", "s.svgz"]

name = st.sampled_from(NAMES)
content = weighted((4, st.binary(max_size=40).map(lambda b: b.hex())), (1, st.integers(0, 5).map(lambda n: "*%d" % n)))
tree = st.dictionaries(name, weighted((3, content), (1, st.dictionaries(name, weighted((3, content), (1, st.dictionaries(name, content, max_size=2))), max_size=3))), max_size=5)


def low(n):
    return weighted((3, st.just(0)), (2, st.integers(0, n)))


def pv(**kw):
    return dict(i=weighted((3, st.just(0)), (1, st.just(1))), p=low(2), v=low(4), **kw)


steps = weighted(
    (6, op("docs", **pv(tree=tree, zip=st.sampled_from(["stored", "deflated", "dirs", "reversed"])))),
    (2, op("again", **pv(n=st.integers(0, 5)))),
    (1, op("noversion", **pv(tree=tree))),
    (2, op("submit", **pv())),
    (2, op("upload", **pv())),
    (2, op("delver", **pv())),
    (2, op("deldocs", **pv())),
    (1, op("delproj", **pv())),
    (1, op("delindex", i=st.integers(0, 1))),
    (1, op("push", **pv())),
    (5, op("get", **pv(n=st.integers(0, 30), etag=st.booleans()))),
    (1, op("restart")),
)
cases = st.fixed_dictionaries(dict(mode=st.sampled_from(MODES), ops=st.lists(steps, min_size=4, max_size=14)))

_servers = {}
_count = [0]


def server(mode):
    if mode not in _servers:
        from vt.server import Server
        opts, docpath = [], None
        if mode == "packed":
            opts = ["--keep-docs-packed"]
        elif mode == "path":
            docpath = tempfile.mkdtemp(prefix="c25docs")
            opts = ["--documentation-path", docpath]
        _servers[mode] = [Server(web=True, opts=opts, start=("async", "notifier"), keep=True), opts]
    return _servers[mode][0]


def restart(mode):
    from vt.server import Server
    old, opts = _servers[mode]
    old.wait_events()
    old.close()
    new = Server(path=old.path, web=True, opts=opts, start=("async", "notifier"), keep=True)
    new.tokens.update(old.tokens)
    _servers[mode][0] = new
    return new


def to_bytes(v):
    if v.startswith("*"):
        return bytes(n % 251 for n in range(9000 * int(v[1:]) + 7))
    return bytes.fromhex(v)


def flatten(t, prefix=""):
    res = {}
    for k, v in t.items():
        if isinstance(v, dict):
            res.update(flatten(v, prefix + k + "/"))
        else:
            res[prefix + k] = to_bytes(v)
    return res


def top(t):
    return flatten({k: v for k, v in t.items() if k != "index.html" or not isinstance(v, dict)})


def dirs_of(flat):
    return {"/".join(k.split("/")[:n]) for k in flat for n in range(1, k.count("/") + 1)}


def make_zip(flat, how):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED if how == "deflated" else zipfile.ZIP_STORED) as zf:
        names = sorted(flat, reverse=how == "reversed")
        if how == "dirs":
            for d in sorted(dirs_of(flat)):
                zf.writestr(zipfile.ZipInfo(d + "/"), b"")
        for k in names:
            zf.writestr(zipfile.ZipInfo(k), flat[k])
    return f.getvalue()


class World:
    def __init__(self, mode, ctx):
        self.mode = mode
        self.ctx = ctx
        self.s = server(mode)
        _count[0] += 1
        self.user = "u%d" % _count[0]
        r = self.s.create_user(self.user)
        check(r.status_code == 201, lambda: "create user -> %s" % r)
        self.docs = {}      # (i, p, v) -> {path: content}
        self.zips = {}      # (i, p, v) -> archive
        self.paths = {"index.html", "d", "zz.html"}
        for i in INDEXES:
            self.make_index(i)

    def make_index(self, i):
        r = self.s.create_index("%s/%s" % (self.user, i), bases=[] if i == "a" else ["%s/a" % self.user])
        check(r.status_code == 200, lambda: "create index -> %s" % r)

    def url(self, i, p, v):
        return "/%s/%s/%s/%s" % (self.user, i, quote(p), quote(v))

    def norm(self, p):
        return p.lower().replace(".", "-")

    # -- the documentation which is served

    def get(self, key, path, alias=None, headers=None):
        i, p, v = key
        return self.s.request("GET", "%s/+doc/%s" % (self.url(i, self.norm(p), alias or v), quote(path)), headers=dict(headers or {}, Accept="*/*"))

    def page(self, key, path, alias=None, etag=False):
        r = self.get(key, path, alias)
        want = self.docs.get(key, {}).get(path)
        what = "%s of %s (%s, %s)" % (path, key, alias, self.mode)
        if want is None:
            check(r.status_code == 404, lambda: "there is no page %s -> %s %r" % (what, r.status_code, r.body[:200]))
        else:
            check(r.status_code == 200, lambda: "page %s -> %s" % (what, r))
            check(r.body == want, lambda: "page %s has the content %r instead of %r" % (what, r.body[:200], want[:200]))
            n = r.headers.get("content-length")
            check(n is None or int(n) == len(want), lambda: "page %s: content length %s" % (what, n))
            if etag and r.headers.get("etag"):
                r2 = self.get(key, path, alias, {"If-None-Match": r.headers.get("etag")})
                check(r2.status_code == 304 or (r2.status_code == 200 and r2.body == want), lambda: "conditional request for %s -> %s" % (what, r2))
                self.etags = getattr(self, "etags", {})
                self.etags[key, path] = (r.headers.get("etag"), want)
        return r

    def old_etags(self):
        """a remembered page is only confirmed when it is still the page"""
        for (key, path), (etag, content) in sorted(getattr(self, "etags", {}).items()):
            r = self.get(key, path, None, {"If-None-Match": etag})
            now = self.docs.get(key, {}).get(path)
            if r.status_code == 304:
                check(now == content, lambda: "changed page %s of %s is reported as not modified" % (path, key))
            else:
                check(r.status_code == (404 if now is None else 200) and (now is None or r.body == now), lambda: "page %s of %s -> %s" % (path, key, r))

    def aliases(self, i, p):
        from packaging.version import Version
        for alias in ("latest", "stable"):
            vs = [v for (i2, p2, v) in self.docs if i2 == i and p2 == p]
            if alias == "stable":
                vs = [v for v in vs if not Version(v).is_prerelease]
            if vs:
                v = max(vs, key=Version)
                self.page((i, p, v), "index.html", alias=alias)
                for path in sorted(self.docs[i, p, v])[:2]:
                    self.page((i, p, v), path, alias=alias)
            else:
                r = self.get((i, p, "0"), "index.html", alias)
                check(r.status_code == 404, lambda: "%s documentation of %s on %s -> %s" % (alias, p, i, r))

    def compare(self):
        for i in INDEXES:
            for p in PROJECTS:
                for v in VERSIONS:
                    key = (i, p, v)
                    if key in self.docs:
                        for path in sorted(self.paths):
                            self.page(key, path, etag=path == "index.html")
                    else:
                        self.page(key, "index.html")
                        for path in sorted(self.paths)[:3]:
                            self.page(key, path)
                    # the page around the documentation, and the mention on the page of the version
                    r = self.s.request("GET", "%s/+d/index.html" % self.url(i, self.norm(p), v), headers={"Accept": "text/html"})
                    check(r.status_code == (200 if key in self.docs else 404), lambda: "documentation view of %s -> %s" % (key, r.status_code))
                    r = self.s.get(self.url(i, self.norm(p), v))
                    zips = [x["href"] for x in r.json["result"].get("+links", ()) if x["rel"] == "doczip"] if r.status_code == 200 else []
                    zips = [x for x in zips if "/%s/%s/+f/" % (self.user, i) in x]
                    check_equal(len(zips), 1 if key in self.docs else 0, "number of documentation links of %s (%s)" % (key, r.status_code))
                    if zips:
                        r = self.s.request("GET", zips[0].split("#")[0])
                        check(r.status_code == 200 and r.body == self.zips[key], lambda: "archive of %s -> %s" % (key, r))
                self.aliases(i, p)
        self.old_etags()

    # -- steps

    def send(self, i, p, version, blob):
        fields = [(":action", "doc_upload"), ("name", p)]
        if version:
            fields.append(("version", version))
        return self.s.post_form("/%s/%s/" % (self.user, i), fields, file=("content", p + ".zip", blob), user=self.user)

    def put(self, key, flat, blob, version=None):
        i, p, v = key
        r = self.send(i, p, v if version is None else version, blob)
        check(r.status_code < 500, lambda: "documentation upload %s -> %s" % (key, r))
        if r.status_code == 200:
            self.docs[key] = flat
            self.zips[key] = blob
            self.paths.update(flat)
            self.paths.update(dirs_of(flat))
        return r

    def forget(self, pred):
        for key in [k for k in self.docs if pred(k)]:
            del self.docs[key], self.zips[key]

    def run(self, st_):
        k = st_["op"]
        s, u = self.s, self.user
        key = (INDEXES[st_["i"]], PROJECTS[st_["p"]], VERSIONS[st_["v"]]) if "v" in st_ else None
        r = None
        if k in ("delver", "deldocs", "delproj", "push") and self.docs and st_["v"] != 1:
            # mostly where there is some documentation
            key = sorted(self.docs)[(st_["p"] * 5 + st_["v"]) % len(self.docs)]
        if k == "docs":
            flat = top(st_["tree"])
            flat["index.html"] = ("<html><body>%s %s %s</body></html>" % key).encode() + flat.get("index.html", b"")
            known = self.docs.get(key) is not None
            r = self.put(key, flat, make_zip(flat, st_["zip"]))
            check(r.status_code == 200, lambda: "documentation upload %s -> %s" % (key, r))
            if known:
                self.ctx.label("replaced")
        elif k == "again":
            # the archive of another (or the same) version once more
            if not self.zips:
                return
            other = sorted(self.zips)[st_["n"] % len(self.zips)]
            if other[0] == key[0] and other != key:
                # the same archive for two versions whose file names may collide is another matter
                if "%s-%s" % (self.norm(other[1]), other[2]) == "%s-%s" % (self.norm(key[1]), key[2]):
                    return
            r = self.put(key, self.docs[other], self.zips[other])
            check(r.status_code == 200, lambda: "documentation upload %s -> %s" % (key, r))
        elif k == "noversion":
            from packaging.version import Version
            i, p, v = key
            r = s.get("/%s/%s/%s" % (u, i, self.norm(p)))
            own = []
            if r.status_code == 200:
                for v in r.json["result"]:
                    r2 = s.get(self.url(i, self.norm(p), v) + "?ignore_bases")
                    if v in VERSIONS and r2.status_code == 200:
                        own.append(v)
            if i == "b":
                return
            flat = top(st_["tree"])
            flat["index.html"] = ("<html><body>%s %s latest</body></html>" % key[:2]).encode()
            if own:
                v = max(own, key=Version)
                r = self.put((i, p, v), flat, make_zip(flat, "stored"), version="")
                check(r.status_code == 200, lambda: "documentation upload %s -> %s" % (key, r))
            else:
                r = self.send(i, p, "", make_zip(flat, "stored"))
                check(r.status_code == 400, lambda: "documentation without version and releases -> %s" % r)
        elif k == "submit":
            r = s.upload("%s/%s" % (u, key[0]), key[1], key[2], "x", b"", user=u, action="submit")
        elif k == "upload":
            r = s.upload("%s/%s" % (u, key[0]), key[1], key[2], "%s-%s.zip" % (key[1], key[2]), repr(key).encode(), user=u)
        elif k == "delver":
            r = s.delete(self.url(key[0], self.norm(key[1]), key[2]), user=u)
            if r.status_code == 200:
                self.forget(lambda x: x == key)
        elif k == "deldocs":
            r = s.get(self.url(key[0], self.norm(key[1]), key[2]))
            if key not in self.docs:
                return
            link = [x["href"] for x in r.json["result"]["+links"] if x["rel"] == "doczip"][0].split("#")[0]
            r = s.delete("/" + link.split("://", 1)[1].split("/", 1)[1], user=u)
            check(r.status_code == 200, lambda: "deletion of the documentation of %s -> %s" % (key, r))
            self.forget(lambda x: x == key)
        elif k == "delproj":
            r = s.delete("/%s/%s/%s" % (u, key[0], self.norm(key[1])), user=u)
            if r.status_code == 200:
                self.forget(lambda x: x[:2] == key[:2])
        elif k == "delindex":
            i = INDEXES[st_["i"]]
            r = s.delete("/%s/%s" % (u, i), user=u)
            check(r.status_code == 201, lambda: "deletion of %s -> %s" % (i, r))
            self.forget(lambda x: x[0] == i)
            self.make_index(i)
            if i == "a":
                s.send_json("PATCH", "/%s/b" % u, ["bases=%s/a" % u], user=u)
        elif k == "push":
            r = s.send_json("PUSH", "/%s/a" % u, dict(name=key[1], version=key[2], targetindex="%s/b" % u), user=u)
            src, dst = ("a",) + key[1:], ("b",) + key[1:]
            if r.status_code == 200 and src in self.docs:
                self.docs[dst], self.zips[dst] = self.docs[src], self.zips[src]
        elif k == "get":
            for x in [key] + sorted(self.docs)[st_["n"] % 3:][:1]:
                paths = sorted(set(self.docs.get(x, {})) | {"index.html"})
                r = self.page(x, paths[st_["n"] % len(paths)], etag=st_["etag"])
        elif k == "restart":
            self.s = restart(self.mode)
        if r is not None:
            check(r.status_code < 500, lambda: "%s -> %s" % (st_, r))
            self.ctx.label("%s:%s" % (k, r.status_code // 100))
        if k not in ("get", "submit", "restart"):
            # see the assumption about the background removal
            s.wait_events()


def run(case, ctx):
    w = World(case["mode"], ctx)
    uploads = deletes = 0
    try:
        for st_ in case["ops"]:
            before = len(w.docs)
            w.run(st_)
            uploads += st_["op"] in ("docs", "again", "push", "noversion") and len(w.docs) >= before
            deletes += len(w.docs) < before
        w.s.wait_events()
        w.compare()
        if uploads >= 2 and deletes:
            ctx.mark(case["mode"])
        ctx.label("pages", sum(map(len, w.docs.values())))
    finally:
        w.s.delete("/%s" % w.user, user=w.user)
        w.s.wait_events()
    base = os.path.join(w.s.path, w.user)
    if os.path.isdir(base):
        left = [f for r, d, fs in os.walk(base) for f in fs if not f.endswith(".hash")]
        ctx.label("left", len(left))
        shutil.rmtree(base, ignore_errors=True)


def subs():
    return [Sub("histories", lambda: cases, run, quick=240, thorough=8000, shards=8,
                rule="4-14 steps (documentation trees with unusual names and nested directories, the same archive again, uploads without version, deletion of documentation, version, project and index, pushes, restarts) "
                     "with packed, unpacked and separately unpacked documentation; non-trivial if at least two archives were stored and some were deleted")]
