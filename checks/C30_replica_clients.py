"""C30: a replica behaves towards clients like its primary."""
from vt import boot  # noqa: F401
import hashlib
import json
import re
import time
from urllib.parse import quote
from hypothesis import strategies as st
from vt.core import Sub, HarnessError, check, check_equal
from vt.gen import weighted
from vt import clock, ops

LEVEL = "exploration"
TECHNIQUE = ("stateful model-based generation of request histories sent to a running replica of a primary (real HTTP between them, delayed change log), compared response by "
             "response with a standalone server that gets the same requests, with a reference model of the content after each write (read your writes), and finally with the primary")
ASSUMPTIONS = ["the connection between primary and replica works, it is only slow; faults are the subject of C10",
               "primary and replica share the secret, as the documentation requires",
               "compared of a response: status, body, content type, location; server specific headers (serial, identifiers, version of the server) are not compared"]

NAMES = ["foo-bar", "Foo.Bar", "foo_bar", "PKG", "pkg", "x.y_2", "missing", "f\u00f6\u00f6", "a b"]
IXS = ["u1/a", "u1/b", "u2/c", "u1/none", "nobody/x", "u9/m"]


def paths():
    ix = st.sampled_from(IXS)
    name = st.sampled_from(NAMES)
    ver = st.sampled_from(ops.VERSIONS + ["stable", "9"])
    return weighted(
        (1, st.sampled_from(["/", "/+api", "/u1", "/u2", "/root", "/nobody", "/u1/", "/favicon.ico", "/+nothing", "/u1/a/+api", "/+login"])),
        (2, ix.map(lambda i: "/" + i)), (1, ix.map(lambda i: "/%s/" % i)), (1, ix.map(lambda i: "/%s?no_projects=" % i)),
        (2, ix.map(lambda i: "/%s/+simple/" % i)), (1, ix.map(lambda i: "/%s/+simple" % i)), (1, ix.map(lambda i: "/%s/+api" % i)),
        (3, st.tuples(ix, name).map(lambda t: "/%s/+simple/%s/" % (t[0], quote(t[1])))),
        (1, st.tuples(ix, name).map(lambda t: "/%s/+simple/%s" % (t[0], quote(t[1])))),
        (2, st.tuples(ix, name).map(lambda t: "/%s/%s" % (t[0], quote(t[1])))),
        (2, st.tuples(ix, name, ver).map(lambda t: "/%s/%s/%s" % (t[0], quote(t[1]), quote(t[2])))),
        (1, st.tuples(ix, name).map(lambda t: "/%s/+f/abc/0123456789abc/%s-1.0.tar.gz" % (t[0], quote(t[1])))),
        (1, st.tuples(ix, name).map(lambda t: "/%s/+e/x/%s-1.0.tar.gz" % (t[0], quote(t[1])))),
    )


_user = st.sampled_from([None, "u1", "u1", "u2", "u9", "root"])
_owner = st.sampled_from(["owner", "owner", "owner", None, "u2", "root"])
_accept = st.sampled_from(["application/json", "text/html", "*/*", "application/vnd.pypi.simple.v1+json", "application/vnd.pypi.simple.v1+html"])
read = st.fixed_dictionaries(dict(s=st.just("read"), path=paths(), accept=_accept, head=st.booleans(), user=_user, etag=st.booleans()))
settings = st.dictionaries(st.sampled_from(["title", "email", "description", "custom_data", "password", "bases", "volatile", "acl_upload", "mirror_whitelist", "nosuch", "type", "mirror_url"]),
                           st.sampled_from(["", "x", "\u00e9", True, False, [], ["u1/a"], ["u2/c", "u1/b"], ["nobody/x"], 1, None, ["u2"], "u1/a"]), max_size=3)
change = weighted(
    (3, st.fixed_dictionaries(dict(k=st.just("json"), m=st.sampled_from(["PATCH", "PUT", "PATCH"]), path=st.sampled_from(["/u1", "/u2", "/u9", "/u1/a", "/u2/c", "/u9/d", "/root", "/u9/m"]), data=settings, user=_owner))),
    (2, st.fixed_dictionaries(dict(k=st.just("list"), ix=st.sampled_from(IXS), user=_owner, data=st.lists(st.sampled_from(
        ["bases+=u2/c", "bases-=u2/c", "volatile=True", "volatile=False", "title=x y", "title-=", "acl_upload=u1,u2", "mirror_whitelist+=pkg", "nosuch=1", "bad"]), min_size=1, max_size=2)))),
    (1, st.fixed_dictionaries(dict(k=st.just("login"), user=st.sampled_from(["u1", "u2", "u9", "root"]), password=st.sampled_from(["pw", "", "x", "other"])))),
    (1, st.fixed_dictionaries(dict(k=st.just("basic"), user=st.sampled_from(["u1", "u2"]), password=st.sampled_from(["pw", "wrong"]), path=st.sampled_from(["/u1/a", "/u2/c", "/u2"])))),
    (1, st.fixed_dictionaries(dict(k=st.just("raw"), m=st.sampled_from(["POST", "PUT", "PATCH", "DELETE", "PUSH", "OPTIONS", "MKCOL"]), path=paths(), user=_owner,
                                   ctype=st.sampled_from([None, "application/json", "text/plain", "multipart/form-data"]), body=st.sampled_from(["", "{}", "[]", "{", "\u00e9", "null", "x" * 5000])))),
    (1, st.fixed_dictionaries(dict(k=st.just("refresh"), ix=st.sampled_from(["u1/a", "u9/m"]), name=st.sampled_from(NAMES), user=_owner))),
    (2, st.fixed_dictionaries(dict(k=st.just("mfile"), name=st.sampled_from(["pkg", "foo-bar", "Foo.Bar"]), which=st.integers(0, 1), head=st.booleans()))),
    (1, st.fixed_dictionaries(dict(k=st.just("big"), n=st.integers(1, 3), p=st.sampled_from(["pkg", "foo-bar"]), user=_owner))),
)
step = weighted(
    (12, ops.op_strategy().map(lambda o: dict(s="op", op=o))),
    (3, ops.op_strategy().map(lambda o: dict(s="direct", op=o))),
    (6, read),
    (4, change.map(lambda c: dict(c, s="change"))),
)


def cases():
    return st.fixed_dictionaries(dict(steps=st.lists(step, min_size=8, max_size=22), streaming=st.booleans(), storage=st.sampled_from([None, None, "sqlite_db_files"]), mirror=st.booleans(),
                                      slow=st.lists(st.sampled_from([0, 0, 0, 20, 60]), min_size=1, max_size=6)))


_front = []
_up = []


def worker_setup():
    clock.install_gm()
    from vt.replica import Front
    from vt.upstream import File, Pypi
    _front.append(Front())
    up = Pypi()
    up.projects["pkg"] = [File("pkg-7.0.tar.gz", b"from upstream"), File("pkg-7.1-py3-none-any.whl", b"x" * 30000, requires_python=">=3", yanked="bad")]
    up.projects["Foo.Bar"] = [File("foo_bar-1.0.zip", b"other", hash="md5"), File("foo_bar-1.1.zip", b"without hash", hash=None)]
    _up.append(up)


def norm_body(r):
    body = re.sub(rb"0x[0-9a-f]{8,}", b"0x", r.body) if len(r.body) < 5000 else r.body
    body = body.replace(_front[0].url.encode(), b"http://replica.example")
    ctype = (r.headers.get("content-type") or "").split(";")[0]
    if ctype.endswith("json"):
        try:
            return ctype, json.loads(body)
        except ValueError:
            pass
    if len(r.body) > 300:
        return ctype, len(r.body), hashlib.sha256(r.body).hexdigest(), r.body[:300]
    return ctype, body


def view(r, method):
    out = dict(status=r.status_code, body=norm_body(r))
    if method == "HEAD":
        out.pop("body")
    for h in ("location", "www-authenticate", "allow"):
        if r.headers.get(h):
            out[h] = r.headers.get(h)
    return out


class Pair:
    """sends every request to a server and to its twin and compares the answers

    has the interface of vt.server.Server that the model uses
    """

    def __init__(self, world, first, twin):
        self.world, self.first, self.twin = world, first, twin

    def request(self, method, path, body=b"", headers=None, user=None, environ=None):
        clock.tick_gm()
        if path.startswith("http"):
            path = re.sub("^https?://[^/]+", "", path)
        r = self.first.request(method, path, body, headers=headers, user=user, environ=environ)
        t = self.twin.request(method, path, body, headers=headers, user=user, environ=environ)
        self.world.compared += 1
        if r.status_code >= 500 and t.status_code < 500 and r.exc is not None:
            check(False, "%s %s raised %.800s" % (method, path, r.text[-800:]))
        a, b = view(r, method), view(t, method)
        if path == "/+login" and r.status_code == 200:
            # tokens carry the time they were issued
            for x in (a, b):
                x["body"][1]["result"].pop("password", None)
        check(a == b, lambda: "%s %s as %s with %.200r: the replica answered %s, a single server %s" % (
            method, path, user, body, cut(a), cut(b)), key="answer:%s" % method)
        return r

    def __getattr__(self, name):
        from vt.server import Server
        fn = getattr(Server, name)
        if isinstance(Server.__dict__.get(name), staticmethod):
            return fn
        return fn.__get__(self)

    @property
    def tokens(self):
        return self.world.tokens


def cut(x):
    return repr(x)[:700]


class World:
    def __init__(self, case):
        from vt.replica import Primary, Replica
        from vt.server import Server
        self.case = case
        self.compared = 0
        self.tokens = {}
        self.front = _front[0]
        self.n = 0
        self.opened = []
        try:
            self.primary = Primary(self.front, block=0.3, start=("async",), storage=case["storage"])
            self.opened.append(self.primary)
            self.front.planner = self.planner
            opts = [] if case["streaming"] else ["--no-replica-streaming"]
            self.replica = Replica(self.front, opts=opts, storage=case["storage"], threads=True)
            self.opened.append(self.replica)
            self.twin = Server(storage=case["storage"], init_opts=["--role", "primary"], opts=["--role", "primary"], base=self.replica.base)
            self.opened.append(self.twin)
            self.primary.base = self.replica.base
            for s in self.opened:
                s.tokens = self.tokens
        except BaseException:
            self.close()
            raise
        self.viar = Pair(self, self.replica, self.twin)
        self.viap = Pair(self, self.primary, self.twin)

    def planner(self, method, path, headers):
        if path.startswith("/+changelog/"):
            self.n += 1
            ms = self.case["slow"][self.n % len(self.case["slow"])]
            if ms:
                time.sleep(ms / 1000)
        return None

    def catch_up(self):
        ok = self.replica.keyfs.wait_tx_serial(self.primary.serial, timeout=20)
        check(ok, lambda: "the replica stays at serial %s, the primary is at %s" % (self.replica.serial, self.primary.serial))

    def close(self):
        for s in reversed(self.opened):
            s.close()
        self.front.reset(None)


def do_change(w, c):
    s = w.viar
    k = c["k"]
    if c.get("user") == "owner":
        c = dict(c, user=(c.get("path") or "/" + c.get("ix", "u9/big")).split("/")[1] or None)
    if k == "json":
        data = {("password" if x == "password" else x): v for x, v in c["data"].items()}
        # a changed password would invalidate what the model logs in with
        data.pop("password", None)
        if c["m"] == "PUT" and c["path"].count("/") == 1:
            data["password"] = "pw"
        if c["path"] in ("/u1/a", "/u1/b", "/u2/c") and c["m"] == "PATCH":
            data.pop("volatile", None)
            data.pop("type", None)
            data.pop("bases", None)
            data.pop("acl_upload", None)
        if c["path"] in ("/u1", "/u2") or (c["path"] in ("/u1/a", "/u2/c") and c["m"] == "PUT"):
            if c["m"] == "PUT":
                return None      # the model decides whether they exist
        return s.send_json(c["m"], c["path"], data, user=c["user"])
    if k == "list":
        data = [x for x in c["data"] if not x.startswith(("volatile", "bases", "acl_upload"))] if c["ix"] in ("u1/a", "u1/b", "u2/c") else c["data"]
        return s.send_json("PATCH", "/" + c["ix"], data, user=c["user"])
    if k == "login":
        return s.send_json("POST", "/+login", dict(user=c["user"], password=c["password"]))
    if k == "basic":
        import base64
        h = {"Authorization": "Basic " + base64.b64encode(("%s:%s" % (c["user"], c["password"])).encode()).decode()}
        return s.send_json("PATCH", c["path"], ["title=by basic"] if c["path"].count("/") == 2 else {"title": "by basic"}, headers=h)
    if k == "raw":
        if c["m"] == "DELETE" and c["user"] is not None:
            return None
        h = {"Accept": "application/json"}
        if c["ctype"]:
            h["Content-Type"] = c["ctype"]
        return s.request(c["m"], c["path"], c["body"].encode(), headers=h, user=None if c["m"] in ("PUT", "DELETE") else c["user"])
    if k == "refresh":
        return s.request("POST", "/%s/+simple/%s/refresh" % (c["ix"], quote(c["name"])), b"", headers={"Accept": "text/html"}, user=c["user"])
    if k == "mfile":
        from vt import observe
        links = observe.simple_page(s, "u9/m", c["name"])
        if len(links) == 1:
            return None
        r = s.request("HEAD" if c["head"] else "GET", links[c["which"]][1], headers={"Accept": "*/*"})
        if r.status_code == 200 and not c["head"]:
            want = [f.content for fs in _up[0].projects.values() for f in fs if f.name == links[c["which"]][0]]
            check_equal(hashlib.sha256(r.body).hexdigest(), hashlib.sha256(want[0]).hexdigest(), "file of the mirror read from the replica")
        return r
    if k == "big":
        # an upload the model doesn't know, to an index it doesn't know
        s.send_json("PUT", "/u9/big", dict(acl_upload=[c["user"] or ":ANONYMOUS:"]), user="u9")
        content = bytes(range(256)) * 1500 * c["n"]
        r = s.upload("u9/big", c["p"], "1.%d" % c["n"], "%s-1.%d.tar.gz" % (c["p"], c["n"]), content, user=c["user"])
        if r.status_code == 200:
            p = s.get("/u9/big/%s/1.%d" % (c["p"], c["n"]))
            check_equal(p.status_code, 200, "release read from the replica after its upload")
            f = s.get(p.json["result"]["+links"][0]["href"], accept=None)
            check_equal((f.status_code, hashlib.sha256(f.body).hexdigest()), (200, hashlib.sha256(content).hexdigest()), "file read from the replica after its upload")
        return r
    raise AssertionError(k)


def run(case, ctx):
    w = World(case)
    try:
        m = ops.Model(w.viar)
        m.setup()
        m.extra.add("u9")
        w.viar.create_user("u9")
        if case["mirror"]:
            r = w.viar.create_index("u9/m", type="mirror", mirror_url=_up[0].url + "/simple/")
            check_equal(r.status_code, 200, "creating a mirror index through the replica")
        wrote = 0
        for s in case["steps"]:
            k = s["s"]
            if k in ("op", "direct"):
                if k == "direct":
                    m.server = w.viap
                else:
                    m.server = w.viar
                m.run(s["op"])
                if k == "direct":
                    w.catch_up()
                else:
                    wrote += 1
                m.server = w.viar
                # a read after the response to the write shows it
                if m.touched:
                    m.compare_index(m.touched, files=True)
            elif k == "read":
                h = {}
                r = w.viar.get(s["path"], accept=s["accept"], user=s["user"])
                if s["head"]:
                    w.viar.request("HEAD", s["path"], headers={"Accept": s["accept"]}, user=s["user"])
                if s["etag"] and r.headers.get("etag"):
                    h["If-None-Match"] = r.headers.get("etag")
                    w.viar.get(s["path"], accept=s["accept"], headers=h, user=s["user"])
                ctx.label("read:%s" % r.status_code)
            elif k == "change":
                r = do_change(w, s)
                if r is not None:
                    ctx.label("%s:%s" % (s["k"], r.status_code))
                    # settings of users and indexes read back from the replica
                    w.viar.get("/")
        m.server = w.viar
        m.compare_all()
        w.catch_up()
        from vt import observe
        a, b = observe.observe(w.replica, keep_time=True), observe.observe(w.primary, keep_time=True)
        check(a == b, lambda: "replica and primary differ: %s" % observe.diff(a, b))
        for e in w.front.errors:
            raise HarnessError("the primary raised %r" % e)
        for k, v in m.outcomes.items():
            ctx.label(k, v)
        if wrote >= 4 and any(x.endswith(":ok") for x in m.outcomes):
            ctx.mark("slow" if any(case["slow"]) else None)
    finally:
        w.close()


def subs():
    return [Sub("clients", cases, run, quick=112, thorough=6000, shards=8,
                rule="8-22 steps: requests of every kind of the model sent to the replica or directly to the primary, reads of arbitrary paths and formats, changes of settings, logins, "
                     "malformed requests; non-trivial if at least 4 modifying requests went through the replica")]
