"""C23: names from requests never reach outside the server directory."""
from vt import boot  # noqa: F401
import io
import json
import os
import re
import shutil
import sys
import tempfile
import zipfile
from html import escape
from urllib.parse import quote, urlsplit, unquote
from hypothesis import strategies as st
from vt.core import Sub, check, check_equal
from vt.gen import weighted, op
from vt.server import Server, fresh_dir
from vt.upstream import Upstream, Reply, JSON_TYPE
from vt.confine import Guard
from vt import observe

LEVEL = "exploration"
TECHNIQUE = ("fuzzing of all names in requests and in the pages of an upstream index with a monitor of every file access of the process (audit hook) and "
             "canary files as oracle, and generated sets of confusable names checked for independent contents")
ASSUMPTIONS = ["documentation is unpacked below the server directory (default of --documentation-path)",
               "file access by the sqlite library is not monitored: its paths don't depend on names",
               "the process runs without privileges, and accesses out of bounds are refused by the monitor"]
UNPRIVILEGED = True

CANARY = b"CANARY-2f61b0f7"
UP = "/".join([".."] * 9)

# -- values

SEGS = ["..", ".", "...", "%2e%2e", "..%2f..", "../..", "a/../..", "\\..\\..", "~", "~root", "etc", "passwd", "+files", "+f", "+e", "+doc", ".secret",
        "canary.zip", "s", "x\0y", "\n", " ", "", "C:", "-", "--", "\u2025", "\uff0e\uff0e", "..;", ".. ", "..\t", "tmp"]
_seg = st.sampled_from(SEGS)
_path = st.lists(_seg, min_size=1, max_size=6).map("/".join)
TARGETS = ["canary.zip", "s/canary.zip", "s/.verif-secret", "s/.secret", "s/.nodeinfo", "s/+files/canary.zip", "s/+files/u1/canary.zip", "s/+files/u1/dev/canary.zip",
           "s/+files/u1/dev/+f/canary.zip", "etc/hostname", "s/u2/dev/pkg/1.0/+doc/index.html", "s/+files/u2/dev/canary.zip", "s/.sqlite"]


@st.composite
def _escape(draw):
    """paths which would lead to a canary if they were followed"""
    up = draw(st.integers(0, 9))
    sep = draw(st.sampled_from(["/", "/", "/", "/./", "//", "%2f", "\\"]))
    dots = draw(st.sampled_from(["..", "..", "..", "%2e%2e", ".%2e"]))
    return sep.join([dots] * up + draw(st.sampled_from(TARGETS)).split("/"))


_rel = weighted((5, _escape()), (2, _path), (1, st.builds("/".join, st.tuples(_seg, _escape()))))
_name = weighted((5, st.sampled_from(["pkg", "pkg", "other"])), (2, _seg), (1, st.sampled_from(["p..q", "..p", "p..", "p-.-", "a.b"])))
_uname = weighted((5, st.sampled_from(["u1", "u1", "u2"])), (2, _seg), (1, st.sampled_from(["u..1", "..u", ".u", "u."])))
_iname = weighted((5, st.sampled_from(["dev", "dev", "m"])), (2, _seg), (1, st.sampled_from(["d..", "..d", ".d"])))
_version = weighted((5, st.sampled_from(["1.0", "2.0"])), (3, _seg), (2, st.sampled_from(["1..0", "..1", "+doc", "1.0/../2.0", ".config", "latest", "stable"])))
_fname = weighted((5, st.sampled_from(["pkg-1.0.zip", "pkg-1.0.tar.gz", "pkg-2.0.zip", "pkg-1.0-py3-none-any.whl"])),
                  (4, st.builds(lambda a, b, c: a + b + c, st.sampled_from(["pkg-", "pkg-1.0/", "pkg/", "pkg-1.0", ""]), _rel, st.sampled_from([".zip", ".tar.gz", "", ".doc.zip"]))),
                  (1, _rel))
_members = st.lists(weighted((3, st.sampled_from(["index.html", "a/b.html", "a/../c.html", "a/"])), (2, _rel), (1, st.sampled_from(["/etc/x", "/" + UP + "/x", "index.html/x", "a\0b", "link"]))), min_size=1, max_size=4)
_w = st.integers(0, 20)


def op_table():
    return weighted(
        (2, op("user", u=_uname)), (2, op("index", u=_uname, i=_iname, t=st.sampled_from(["stage", "mirror"]))),
        (6, op("upload", u=_uname, i=_iname, n=_name, v=_version, f=_fname, c=st.integers(0, 3))),
        (5, op("docs", u=_uname, i=_iname, n=_name, v=_version, members=_members)),
        (2, op("submit", u=_uname, i=_iname, n=_name, v=_version)),
        (8, op("getdoc", u=_uname, i=_iname, n=_name, v=_version, rel=_rel, how=st.sampled_from(["+d", "+doc", "+doc"]))),
        (5, op("get", path=st.builds("/".join, st.lists(st.one_of(st.sampled_from(["u1", "dev", "m", "pkg", "1.0", "+f", "+e", "+simple", "+api", "+doc", "+d", "+static", "+theme-static"]), _rel), min_size=1, max_size=6)))),
        (3, op("tox", w=_w, f=_rel)), (2, op("push", n=_name, v=_version, target=st.one_of(st.sampled_from(["u2/dev"]), _rel))),
        (3, op("delete", u=_uname, i=_iname, n=_name, v=_version, depth=st.integers(1, 4))),
        (3, op("delpath", path=st.builds(lambda a, b: a + b, st.sampled_from(["u1/dev/", "u1/dev/+f/", "", "u1/dev/pkg/"]), _rel))),
        (2, op("web", u=_uname, i=_iname, n=_name, v=_version, rel=_rel)))


def cases():
    return st.fixed_dictionaries(dict(ops=st.lists(op_table(), min_size=5, max_size=25), packed=st.sampled_from([False, False, True])))


def zipped(members):
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w") as z:
        seen = set()
        for m in members:
            if m in seen:
                continue
            seen.add(m)
            info = zipfile.ZipInfo("x")
            info.filename = m      # ZipInfo() cuts at null bytes
            if m == "link":
                info.external_attr = 0o120777 << 16
                z.writestr(info, "/")
            else:
                z.writestr(info, b"DOC " + m.encode())
    return bio.getvalue()


class World:
    """a server in base/s below directories with canaries"""

    def __init__(self, packed=False, web=True, opts=()):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="c23"))
        deep = os.path.join(self.base, "d1/d2/d3/d4/d5")
        os.makedirs(deep)
        self.root = os.path.join(deep, "s")
        self.tmp = os.path.join(self.base, "tmp")
        os.mkdir(self.tmp)
        tmpl = fresh_dir(web=web)
        shutil.move(tmpl, self.root)
        shutil.rmtree(os.path.dirname(tmpl), ignore_errors=True)
        with open(os.path.join(self.root, ".verif-secret"), "rb") as f:
            self.secret = f.read()
        d = deep
        self.canaries = []
        while len(d) >= len(self.base):
            for t in ("canary.zip", "pkg-1.0.zip", "etc/hostname"):
                self.canary(os.path.join(d, t))
            d = os.path.dirname(d)
        for t in ("canary.zip", "pkg-1.0.zip", "+files/canary.zip", "+files/pkg-1.0.zip", "+files/u1/canary.zip", "+files/u1/pkg-1.0.zip", "+files/u1/dev/canary.zip",
                  "+files/u1/dev/pkg-1.0.zip", "+files/u1/dev/+f/canary.zip", "+files/u1/dev/+f/pkg-1.0.zip", "+files/u2/dev/canary.zip"):
            self.canary(os.path.join(self.root, t))
        self.old_tmp = tempfile.tempdir
        self.cwd = os.getcwd()
        os.chdir(self.tmp)
        tempfile.tempdir = self.tmp
        sys.dont_write_bytecode = True
        self.s = Server(path=self.root, start=("async",), web=web, opts=(["--keep-docs-packed"] if packed else []) + list(opts), keep=True)
        self.indexes = set()
        self.guard = Guard(self.may_write, self.may_read)

    def canary(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(CANARY)
        self.canaries.append(path)

    OWN = re.compile(r"(\.sqlite.*|\.indices(/.*)?|\.event_serial.*|\.secret|\.nodeinfo.*|\.serverversion)$")

    DOC = re.compile(r"[^/]+/[^/]+/[^/]+/[^/]+/\+doc(\.hash$|/)")    # user, index, project and version

    def may_write(self, path, event):
        if path == self.tmp or path.startswith(self.tmp + "/"):
            return True
        if not path.startswith(self.root + "/") or path in self.canaries:
            return False
        rel = path[len(self.root) + 1:]
        if self.OWN.match(rel) or rel == "+files":
            return True
        if rel.startswith("+files/"):
            rel = rel[7:]
        elif not self.DOC.match(rel) and event == "open":
            return False
        # files and unpacked documentation of an existing index, and their parent directories
        parts = rel.split("/")
        return any(parts[:2] == ix[:len(parts)] for ix in self.indexes)

    def may_read(self, path):
        if path.startswith(self.base):
            if path in self.canaries:
                return False
            return path.startswith((self.root + "/", self.tmp + "/")) or path in (self.root, self.tmp)
        return not path.startswith(("/root", "/home", "/etc/passwd", "/etc/shadow", "/etc/hostname")) or path.startswith(sys.prefix)

    def ok(self, o, r=None):
        if self.guard.bad:
            bad, self.guard.bad = self.guard.bad, []
            check(False, lambda: "%r touches files out of bounds: %s" % (o, [x.replace(self.base, "BASE") for x in bad]), key="access")
        if r is not None and hasattr(r, "body"):
            check(CANARY not in r.body and self.secret not in r.body, lambda: "%r is answered with a file that isn't part of the index: %s" % (o, r.status_code), key="served")

    def close(self):
        os.chdir(self.cwd)
        tempfile.tempdir = self.old_tmp
        try:
            self.s.close()
        finally:
            for p in self.canaries:
                with open(p, "rb") as f:
                    check_equal(f.read(), CANARY, "the file %s" % p.replace(self.base, "BASE"), key="canary")
            shutil.rmtree(self.base, ignore_errors=True)


def q(x):
    """names as they are, already encoded ones as well"""
    return quote(x, safe="/%" if re.search("%[0-9a-f]{2}", x) else "/")


def run(case, ctx):
    w = World(packed=case["packed"])
    s = w.s
    try:
        with w.guard:
            for u in ("u1", "u2"):
                w.indexes.add((u,))
                s.create_user(u)
                for i, t in (("dev", "stage"), ("m", "mirror")):
                    w.indexes.add((u, i))
                    s.create_index(u + "/" + i, **(dict(type="mirror", mirror_url="http://127.0.0.1:1/") if t == "mirror" else {}))
            w.indexes = {ix if len(ix) == 2 else (ix[0], "") for ix in w.indexes}
            w.indexes = {list_ for list_ in w.indexes if list_[1]}
            w.indexes = [list(x) for x in w.indexes]
            files = []
            for u in ("u1", "u2"):
                s.upload(u + "/dev", "pkg", "1.0", "pkg-1.0.zip", b"content of " + u.encode(), user=u)
                s.upload(u + "/dev", "pkg", "1.0", "pkg-1.0.doc.zip", zipped(["index.html"]), user=u, action="doc_upload")
            n = 0
            for o in case["ops"]:
                r = drive(w, s, o, files)
                w.ok(o, r)
                if r is not None and hasattr(r, "status_code"):
                    ctx.label("%s:%s" % (o["op"], "ok" if r.status_code < 400 else "refused" if r.status_code < 500 else "error"))
                    n += r.status_code < 400
            # unpack all documentation there is
            for u, i in w.indexes:
                r = s.get("/%s/%s" % (quote(u), quote(i)))
                if r.status_code != 200:
                    continue
                for p in r.json["result"].get("projects", ()):
                    vs = s.get("/%s/%s/%s" % (quote(u), quote(i), quote(p)))
                    for v in vs.json.get("result", ()) if vs.status_code == 200 else ():
                        w.ok("documentation of %s %s" % (p, v), s.get("/%s/%s/%s/%s/+doc/index.html" % (quote(u), quote(i), quote(p), quote(v)), accept="text/html"))
            if n >= 3:
                ctx.mark()
            w.ok("the end")
        # names of existing users and indexes
        for u, c in s.get("/").json["result"].items():
            for x in [u, *c.get("indexes", ())]:
                check(x not in (".", "..", "") and "/" not in x and "\0" not in x, lambda: "there is a user or index %r" % x, key="name")
    finally:
        w.close()


def drive(w, s, o, files):
    k = o["op"]
    u = o.get("u")
    if k == "user":
        return s.create_user_raw(u) if hasattr(s, "create_user_raw") else s.send_json("PUT", "/" + quote(u, safe=""), {"password": "pw"})
    if k == "index":
        d = dict(type="mirror", mirror_url="http://127.0.0.1:1/") if o["t"] == "mirror" else {}
        if u not in s.tokens:
            s.login(u, "pw")
        r = s.send_json("PUT", "/%s/%s" % (quote(u, safe=""), quote(o["i"], safe="")), d, user=u)
        if r.status_code == 200:
            w.indexes.append([u, o["i"]])
        return r
    if k == "upload":
        return s.upload(q(u) + "/" + q(o["i"]), o["n"], o["v"], o["f"], b"c%d" % o["c"], user=u if u in s.tokens else "u1")
    if k == "docs":
        return s.upload(q(u) + "/" + q(o["i"]), o["n"], o["v"], "x.doc.zip", zipped(o["members"]), user=u if u in s.tokens else "u1", action="doc_upload")
    if k == "submit":
        return s.post_form("/%s/%s/" % (q(u), q(o["i"])), [(":action", "submit"), ("name", o["n"]), ("version", o["v"])], user=u if u in s.tokens else "u1")
    if k == "getdoc":
        return s.get("/%s/%s/%s/%s/%s/%s" % (q(u), q(o["i"]), q(o["n"]), q(o["v"]), o["how"], q(o["rel"])), accept="text/html")
    if k == "get":
        return s.get("/" + q(o["path"]), accept="*/*")
    if k == "delete":
        parts = [u, o["i"], o["n"], o["v"]][:o["depth"]]
        if parts in (["u1"], ["u2"]):
            return None
        r = s.delete("/" + "/".join(map(q, parts)), user=u if u in s.tokens else "u1")
        return r
    if k == "delpath":
        return s.delete("/" + q(o["path"]), user="u1")
    if k == "tox":
        r = s.get("/u1/dev/pkg/1.0")
        href = None
        if r.status_code == 200:
            links = [x for x in r.json["result"].get("+links", ()) if x["rel"] == "releasefile"]
            if links:
                href = urlsplit(links[o["w"] % len(links)]["href"]).path
        body = json.dumps({"testenvs": {}, "name": o["f"]}).encode()
        if href is None or o["w"] % 3 == 0:
            href = "/u1/dev/" + q(o["f"])
        r = s.request("POST", href, body, headers={"Content-Type": "application/json", "Accept": "application/json", "X-Filename": o["f"].encode("utf-8", "replace").decode("latin-1").replace("\n", "").replace("\0", "")}, user="u1")
        return r
    if k == "push":
        return s.send_json("POST", "/u1/dev", dict(name=o["n"], version=o["v"], targetindex=o["target"]), user="u1")
    if k == "web":
        for p in ("", "/" + q(o["v"]), "/%s/+toxresults/%s" % (q(o["v"]), q(o["rel"])), "/%s/+toxresults/%s/%s" % (q(o["v"]), q(o["rel"]), "x")):
            r = s.get("/%s/%s/%s%s" % (q(u), q(o["i"]), q(o["n"]), p), accept="text/html")
            w.ok(o, r)
        return r


# -- names from an upstream index

_hash = weighted((3, st.none()), (3, st.sampled_from(["sha256=good", "md5=good"])),
                 (4, st.builds(lambda a, v: a + "=" + v, st.sampled_from(["sha256", "md5", "sha1"]), _rel)),
                 (2, st.builds(lambda a, n, b: a + "=" + "../" * n + b, st.sampled_from(["sha256", "md5"]), st.integers(1, 5), st.sampled_from(["", "x", "etc/", "/"]))),
                 (1, st.sampled_from(["new=x", "sha256=", "md5", "sha256=a=b", "algorithms_available=x", "sha256=" + "\u00e9" * 64, "pbkdf2_hmac=a"])))
_hname = weighted((5, st.sampled_from(["pkg-1.0.zip", "pkg-2.0.tar.gz", "canary.zip"])), (3, _rel), (2, st.builds(lambda r: r + "/pkg-1.0.zip", _rel)), (2, st.builds(lambda r: "pkg-1.0" + r + ".zip", _rel)),
                  (1, st.sampled_from(["..%2f..%2fpkg-1.0.zip", "%2e%2e/%2e%2e/pkg-1.0.zip", "pkg-1.0.zip/..", "pkg-1.0.zip%00", "..", "pkg-1.0%2f..%2f..%2fcanary.zip", "..#egg=pkg-1.0", "?pkg-1.0.zip"])))
_link = st.fixed_dictionaries(dict(href=_hname, hash=_hash, kind=st.integers(0, 2)))


def mirror_cases():
    return st.fixed_dictionaries(dict(
        links=st.lists(_link, min_size=1, max_size=6), json=st.booleans(), again=st.booleans(), names=st.lists(_rel, max_size=3),
        requests=st.lists(_rel, max_size=4), delete=st.booleans()))


class Hostile(Upstream):
    def __init__(self, case):
        self.case = case
        super().__init__()

    def content(self, href):
        return b"FILE"

    def answer(self, path, headers):
        import hashlib
        c = self.case
        base = path.partition("?")[0]
        if base == "/simple/":
            if c["json"]:
                return Reply(200, json.dumps(dict(meta={"api-version": "1.0"}, projects=[{"name": n} for n in ["pkg", *c["names"]]])).encode(), ctype=JSON_TYPE)
            return Reply(200, ("<html>" + "".join('<a href="%s/">%s</a>' % (escape(quote(n)), escape(n)) for n in ["pkg", *c["names"]])).encode())
        if base == "/simple/pkg/":
            links = []
            for x in c["links"]:
                h = x["hash"]
                if h and h.endswith("=good"):
                    a = h.split("=")[0]
                    h = a + "=" + hashlib.new(a, b"FILE").hexdigest()
                links.append(([self.url + "/f/", "../../f/", ""][x["kind"]] + x["href"], h, x["href"]))
            if c["json"]:
                return Reply(200, json.dumps(dict(meta={"api-version": "1.0"}, name="pkg", files=[
                    dict(filename=n, url=u, hashes=dict([h.split("=", 1)]) if h and "=" in h else {}) for u, h, n in links])).encode(), ctype=JSON_TYPE)
            return Reply(200, ("<html><body>" + "".join('<a href="%s">%s</a>' % (escape(u + ("#" + h if h else "")), escape(n)) for u, h, n in links)).encode("utf-8", "replace"))
        if base.startswith("/simple/"):
            return None
        return Reply(200, b"FILE", ctype="application/zip")


def run_mirror(case, ctx):
    w = World(web=False)
    s = w.s
    up = Hostile(case)
    try:
        with w.guard:
            w.indexes = [["u1", "dev"], ["u1", "m"]]
            s.create_user("u1")
            s.create_index("u1/dev")
            s.create_index("u1/m", type="mirror", mirror_url=up.url + "/simple/")
            got = 0
            for rnd in range(1 + case["again"]):
                for path in ("/u1/m/+simple/", "/u1/m/+simple/pkg/", "/u1/m", "/u1/m/pkg"):
                    r = s.get(path, accept="text/html" if "simple" in path else "application/json")
                    w.ok(path, r)
                page = observe.simple_page(s, "u1/m", "pkg")
                w.ok("simple page")
                if isinstance(page, list) and all(isinstance(x, (list, tuple)) for x in page):
                    for x in page:
                        href = x[1]
                        r = s.get(href if href.startswith("/") else "/u1/m/+simple/pkg/" + href, accept="*/*")
                        w.ok("GET of the link %r" % href, r)
                        if r.status_code == 200:
                            check_equal(r.body, b"FILE", "content of the link %r" % href, key="served")
                            got += 1
                            ctx.label("fetched")
                        else:
                            ctx.label("status:%s" % r.status_code)
                for n in case["names"]:
                    w.ok("project %r" % n, s.get("/u1/m/+simple/%s/" % q(n), accept="text/html"))
                for n in case["requests"]:
                    w.ok("file %r" % n, s.get("/u1/m/+f/%s" % q(n), accept="*/*"))
                    w.ok("file %r" % n, s.get("/u1/m/+e/%s" % q(n), accept="*/*"))
            if case["delete"]:
                w.ok("delete", s.delete("/u1/m/pkg", user="u1"))
                w.ok("delete", s.delete("/u1/m", user="u1"))
            if got and any(x["hash"] and not x["hash"].endswith("=good") or x["href"] not in ("pkg-1.0.zip", "pkg-2.0.tar.gz") for x in case["links"]):
                ctx.mark()
    finally:
        up.close()
        w.close()


# -- different names never share storage

CU = ["u", "U", "u.", ".u", "u-1", "u_1", "u.1", "u1", "\u00e9", "e\u0301", "u\u200b", "+"]
CI = ["d", "D", "d.", ".d", "d-1", "d_1", "d.1", "d1", "+f", ".config", ".projects", "\u00e9", "e\u0301"]
CP = ["p", "p-q", "p-q-r", "p1", "p-1", "pq", "config", "versions", "simple"]
CV = ["1", "1.0", "1.0.0", "01", "1-1", "1.post1", "1_1", "v1", "V1", "1+a", "1+A", "1%2b", " 1", "1 ", "..", ".", "...", ".config", ".versions", "q-1", "\u0661", "1.0%00", "latest", "+doc", "1\u200b"]


def distinct_cases():
    t = st.tuples(st.sampled_from(CU), st.sampled_from(CI), st.sampled_from(CP), st.sampled_from(CV), st.integers(0, 3)).map(list)

    @st.composite
    def near(draw):
        base = draw(t)
        out = [base]
        for _ in range(draw(st.integers(1, 5))):
            x = list(draw(st.sampled_from(out)))
            for i in draw(st.sampled_from([[0], [1], [2], [2], [3], [3], [2, 3], [4]])):
                x[i] = draw(t)[i]
            out.append(x)
        return out
    return st.fixed_dictionaries(dict(tuples=near(), packed=st.booleans(), kill=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 3)).map(list), max_size=3), same=st.booleans()))


def run_distinct(case, ctx):
    w = World(packed=case["packed"])
    s = w.s
    want = {}     # (user, index, project, version) -> {"files": {name: content}, "doc": content}
    try:
        with w.guard:
            for k, (u, i, p, v, f) in enumerate(case["tuples"]):
                if u not in s.tokens:
                    s.create_user(u)
                w.indexes.append([u, i]) if isinstance(w.indexes, list) else setattr(w, "indexes", [[u, i]])
                r = s.send_json("PUT", "/%s/%s" % (quote(u, safe=""), quote(i, safe="")), {}, user=u)
                iq = "%s/%s" % (quote(u, safe=""), quote(i, safe=""))
                name = p + "-" + v + [".zip", ".tar.gz", "-py3-none-any.whl", ".zip"][f]
                content = b"same" if case["same"] else b"content %d" % k
                key = (u, i, p, v)
                r = s.upload(iq, p, v, name, content, user=u)
                w.ok(case["tuples"][k], r)
                if r.status_code == 200:
                    want.setdefault(key, {"files": {}, "doc": None})["files"][name] = content
                    ctx.label("file")
                d = zipped(["index.html", "d%d.html" % k])
                r = s.upload(iq, p, v, "x.doc.zip", d, user=u, action="doc_upload")
                w.ok(case["tuples"][k], r)
                if r.status_code == 200:
                    want.setdefault(key, {"files": {}, "doc": None})["doc"] = k
                    ctx.label("doc")
            compare(w, s, want, case, ctx)
            for k, what in case["kill"]:
                u, i, p, v, _ = case["tuples"][k % len(case["tuples"])]
                path = "/%s/%s" % (quote(u, safe=""), quote(i, safe=""))
                if what == 0:
                    r = s.delete(path + "/%s/%s" % (quote(p, safe=""), quote(v, safe="")), user=u)
                    gone = [x for x in want if x == (u, i, p, v)]
                elif what == 1:
                    r = s.delete(path + "/%s" % quote(p, safe=""), user=u)
                    gone = [x for x in want if x[:3] == (u, i, p)]
                elif what == 2:
                    r = s.delete(path, user=u)
                    gone = [x for x in want if x[:2] == (u, i)]
                else:
                    r = s.delete("/" + quote(u, safe=""), user=u)
                    gone = [x for x in want if x[:1] == (u,)]
                w.ok("deletion", r)
                if r.status_code in (200, 201):
                    ctx.label("deleted")
                    for x in gone:
                        del want[x]
                compare(w, s, want, case, ctx)
            if len(want) >= 2 or (want and case["kill"]):
                ctx.mark()
    finally:
        w.close()


def compare(w, s, want, case, ctx):
    s.wait_events() if "notifier" in s.started else None
    for rnd in range(2):     # unpacking the documentation of one may damage that of others
        for (u, i, p, v), c in sorted(want.items()):
            r = s.get("/%s/%s/%s/%s" % tuple(quote(x, safe="") for x in (u, i, p, v)))
            check(r.status_code == 200, lambda: "%s/%s %s %r -> %s" % (u, i, p, v, r.status_code), key="shared")
            links = r.json["result"].get("+links", [])
            got = {unquote(urlsplit(x["href"]).path).rsplit("/", 1)[1]: urlsplit(x["href"]).path for x in links if x["rel"] == "releasefile"}
            check_equal(sorted(got), sorted(c["files"]), "files of %s/%s %s %r" % (u, i, p, v), key="shared")
            for name, href in got.items():
                check_equal(s.get(href, accept="*/*").body, c["files"][name], "content of %r of %s/%s %s %r" % (name, u, i, p, v), key="shared")
            for k, t in enumerate(case["tuples"]):
                r = s.get("/%s/%s/%s/%s/+doc/d%d.html" % tuple([quote(x, safe="") for x in (u, i, p, v)] + [k]), accept="*/*")
                w.ok("documentation", r)
                if v in ("latest", "stable"):
                    continue
                if k == c["doc"]:
                    check_equal((r.status_code, r.body), (200, b"DOC d%d.html" % k), "documentation of %s/%s %s %r" % (u, i, p, v), key="shared")
                else:
                    check(r.status_code != 200, lambda: "documentation of %r is served for %s/%s %s %r" % (t[:4], u, i, p, v), key="shared")


def subs():
    return [Sub("requests", cases, run, quick=160, thorough=12000, rule="at least three requests with generated names succeeded", case_timeout=60),
            Sub("upstream", mirror_cases, run_mirror, quick=128, thorough=12000, rule="a file was fetched and the page had an unusual name or checksum", case_timeout=60),
            Sub("distinct", distinct_cases, run_distinct, quick=128, thorough=10000, rule="at least two different versions were stored, or one and a deletion", case_timeout=60)]
