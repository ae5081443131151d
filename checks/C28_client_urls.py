"""C28: the client resolves index and project URLs and stored logins correctly."""
from vt import boot  # noqa: F401
import json
import os
import stat
from hypothesis import strategies as st
from vt.client import Client, Location, Net, home, route
from vt.core import Sub, check, check_equal
from vt.gen import op, weighted

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: sequences of client commands against several servers (real servers under different root URLs and hostile ones), with a reference model of the settings and a monitor of every credential sent"
ASSUMPTIONS = ["servers answer with the endpoint URLs devpi-server answers with",
               "a login stored for a root URL is meant for everything below that URL"]

ROOTS = ["http://a.test/", "http://b.test/devpi/", "http://b.test/devpi2/", "http://a.test:8080/", "https://a.test/", "https://c.test/x/y/", "http://localhost:3141/"]
BASIC = {"https://c.test/x/y/": ("gate", "se:cr%41et@")}
INDEXES = ["u1/dev", "u1/prod", "root/x", "\u00fcser/dev"]
USERS = ["u1", "root", "\u00fcser"]
EVIL = ["http://evil.test/", "http://a.test.evil.test/", "http://evil.test:3141/devpi/", "http://a.test:81/", "https://b.test/devpi/"]
EVIL_HOW = ["403", "401", "401-location", "200", "redirect", "api", "500"]

loc = weighted((3, st.integers(0, 1)), (1, st.integers(0, len(ROOTS) - 1)))
evil = st.integers(0, len(EVIL) - 1)
index = st.integers(0, len(INDEXES) - 1)
steps = weighted(
    (4, op("use", l=loc, i=st.integers(-1, len(INDEXES) - 1), slash=st.booleans(), cred=weighted((6, st.just(0)), (1, st.integers(1, 2))), extra=weighted((5, st.just(0)), (1, st.just(1))))),
    (2, op("useindex", i=index, form=st.sampled_from(["user/index", "/user/index", "name", "/user/index/", "/"]))),
    (1, op("usemissing", what=st.sampled_from(["u1/nope", "nobody/x", "http://nowhere.test/u1/dev", "http://a.test/u1/nope", "ftp://a.test/u1/dev"]))),
    (2, op("useevil", e=evil, how=st.sampled_from(EVIL_HOW), ls=st.booleans(), path=st.sampled_from(["", "u1/dev", "u1/dev/"]))),
    (1, op("uselist", l=loc, i=st.integers(-1, len(INDEXES) - 1), url=st.booleans())),
    (4, op("login", u=st.integers(0, 2), good=weighted((4, st.just(True)), (1, st.just(False))))),
    (1, op("logoff")),
    (2, op("getjson", form=st.sampled_from(["/", "/u1", "/u1/dev", "rel", "url", "evil"]), l=loc, e=evil, how=st.sampled_from(EVIL_HOW))),
    (1, op("remove", l=loc, e=evil, how=st.sampled_from(EVIL_HOW), evil=st.booleans())),
    (1, op("list", i=st.integers(-1, len(INDEXES) - 1), env=st.booleans())),
    (1, op("index", i=st.integers(-1, len(INDEXES) - 1))),
    (1, op("userlist")),
    (1, op("usedelete")),
    (1, op("setcfg", i=index)),
    (1, op("hijack", l=loc, e=evil, how=st.sampled_from(["redirect"]))),
    (1, op("revoke", l=loc)),
)
steps = st.tuples(steps, weighted((9, st.none()), (1, st.integers(0, 2)))).map(lambda x: dict(x[0], env_user=x[1]))
cases = st.fixed_dictionaries(dict(ops=st.lists(steps, min_size=4, max_size=16)))

_server = []


def server():
    if not _server:
        from vt.server import Server
        s = Server(start=("async",))
        for u in USERS:
            if u == "root":
                s.login("root", "")
                from urllib.parse import quote
                r = s.send_json("PATCH", "/root", dict(password="pw"), user="root")
                s.login("root", "pw")
            else:
                from urllib.parse import quote
                r = s.send_json("PUT", "/" + quote(u), dict(password="pw"))
                check(r.status_code == 201, "user")
                check(s.login(u, "pw").status_code == 200, "login")
        from urllib.parse import quote
        for i in INDEXES:
            r = s.send_json("PUT", "/" + quote(i), {}, user=i.split("/")[0])
            check(r.status_code == 200, lambda: "index %s" % r)
        _server.append(s)
    return _server[0]


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.net = Net()
        self.locs = {r: Location(self.net, server(), r, BASIC.get(r)) for r in ROOTS}
        self.evil = {}        # origin -> (how, where to redirect to)
        self.hijack = None    # (root, evil url)
        origins = {}
        for x in self.locs.values():
            origins.setdefault(x.origin, []).append(x)
        for o, ls in origins.items():
            self.net.hosts[o] = self.guard(route(ls))
        for e in EVIL:
            o = e.split("://")[0] + "://" + e.split("://")[1].split("/")[0]
            self.net.hosts.setdefault(o, self.evil_answer)
        self.client = Client(self.net)
        # the settings as they should be
        self.root = None
        self.index = None
        self.username = None
        self.env = {}
        self.auth = {}        # root -> {user: token}
        self.basic = {}       # root -> (user, password)
        self.expired = set()

    def guard(self, handler):
        def answer(req):
            if self.hijack and req.url.startswith(self.hijack[0]):
                to = self.hijack[1] + req.target[1:]
                return 302, {"Location": to, "Content-Type": "text/html"}, b""
            return handler(req)
        return answer

    def evil_answer(self, req):
        how = self.how
        if how == "redirect" and "back" not in req.url:
            # to another hostile server
            return 302, {"Location": "http://a.test.evil.test/back", "Content-Type": "text/html"}, b""
        if how == "api":
            d = dict(type="apiconfig", result=dict(login="/+login", index="/u1/dev", simpleindex="/u1/dev/+simple/", pypisubmit="/u1/dev/", features=[], authstatus=["noauth", "", []]))
            return 200, {"Content-Type": "application/json"}, json.dumps(d).encode()
        if how == "401-location":
            return 401, {"Content-Type": "application/json", "location": "/+login"}, b"{}"
        if how in ("403", "401", "500"):
            return int(how), {"Content-Type": "application/json"}, b'{"message": "no"}'
        return 200, {"Content-Type": "text/html"}, b"hello"

    # -- monitor

    def monitor(self, command):
        """every credential that was sent, and to whom"""
        import urllib.parse
        sent = self.net.take()
        for req, status in sent:
            home_ = [x for x in self.locs.values() if x.covers(req)]
            root = max((x.root for x in home_), key=len, default=None)
            auth = req.auth()
            what = "%s -> %s %s" % (command, req.method, req.url)
            if auth is not None:
                user, token = auth
                check(root is not None, lambda: "a login is sent to a foreign server: %s (%s)" % (what, auth))
                check(token in self.issued and self.issued[token] == (root, user), lambda: "the login %s of %s is sent to %s: %s" % (auth, self.issued.get(token), root, what))
            basic = req.auth("authorization")
            if basic is not None:
                check(root in self.basic and self.basic[root] == basic, lambda: "basic auth %s is sent: %s" % (basic, what))
            elif root in self.basic and not self.pending:
                check(False, lambda: "the stored basic auth is not sent: %s" % what)
            for secret in self.issued:
                check(secret not in urllib.parse.unquote(req.url), lambda: "login in the URL: %s" % what)
                check(secret.encode() not in req.body, lambda: "login in the body: %s" % what)
            if root is not None and root == self.root and not self.pending and req.method != "POST" and "+api" not in req.url:
                check_equal(auth, self.login(root), "login sent with %s" % what)
        return sent

    # -- settings

    def settings(self):
        f = self.client.files()
        cur = json.loads(f.get("current.json") or "{}")
        auth = json.loads(f.get("auth.json") or "{}")
        return cur, auth

    def compare(self, what):
        cur, auth = self.settings()
        root, ix = self.root, self.index
        if root is None:
            check_equal([cur.get(k) for k in ("index", "login", "simpleindex", "pypisubmit")], [None] * 4, "settings without server after %s" % what)
        else:
            from urllib.parse import quote
            q = quote(ix) if ix else None
            check_equal(cur.get("login"), root + "+login", "login URL after %s" % what)
            check_equal(cur.get("index"), root + q if ix else None, "index URL after %s" % what)
            check_equal(cur.get("simpleindex"), root + q + "/+simple/" if ix else None, "simple URL after %s" % what)
            check_equal(cur.get("pypisubmit"), root + q + "/" if ix else None, "upload URL after %s" % what)
        check_equal(cur.get("username"), self.username, "user after %s" % what)
        check("auth" not in cur, "logins in current.json")
        got = {r: dict(v) for r, v in (auth.get("auth") or {}).items() if v}
        check_equal(got, {r: v for r, v in self.auth.items() if v}, "stored logins after %s" % what)
        got = {r: tuple(v) for r, v in (auth.get("basic_auth") or {}).items()}
        check_equal(got, {with_port(r): v for r, v in self.basic.items()}, "stored basic auth after %s" % what)
        for n in ("auth.json", "current.json"):
            p = os.path.join(self.client.clientdir, n)
            if os.path.exists(p):
                check(not stat.S_IMODE(os.stat(p).st_mode) & 0o077, lambda: "%s can be read by others" % n)
        # what is derived from the settings when they are read again
        from devpi.use import PersistentCurrent
        from pathlib import Path
        d = Path(self.client.clientdir)
        c = PersistentCurrent(d / "auth.json", d / "current.json")
        if root is not None:
            check_equal(c.root_url.url, root, "root URL")
            for u in USERS:
                check_equal(c.get_user_url(u).url, root + u, "user URL")
                check_equal(c.get_auth(username=u), (u, self.auth[root][u]) if u in self.auth.get(root, {}) else None, "login of %s" % u)
            for n in INDEXES:
                for f in ("%s", "/%s", "%s/"):
                    check_equal(c.get_index_url(f % n).url, root + n + "/", "index URL of %r" % (f % n))
                    check_equal(c.get_index_url(f % n, slash=False).url, root + n, "index URL of %r" % (f % n))
                    check_equal(c.get_project_url("pkg", indexname=f % n).url, root + n + "/pkg/", "project URL")
                    check_equal(c.get_simpleindex_url(f % n).url, root + n + "/+simple/", "simple URL")
                    check_equal(c.get_simpleproject_url("pkg", indexname=f % n).url, root + n + "/+simple/pkg/", "simple URL")
            if ix:
                check_equal(c.get_index_url().url, root + quote(ix) + "/", "index URL")
                check_equal(c.get_project_url("Some.Pkg").url, root + quote(ix) + "/Some.Pkg/", "project URL")
                check_equal(c.indexname, quote(ix), "index name")
                b = self.basic.get(root)
                want = root + quote(ix) + "/+simple/"
                if b:
                    s, _, rest = want.partition("://")
                    want = "%s://%s:%s@%s" % (s, quote(b[0]), quote(b[1]), rest)
                check_equal(c.simpleindex_auth, want, "simple URL with basic auth")
        for r in ROOTS:
            have = self.login(r)
            if r in self.auth or not any(r.startswith(x) for x in self.auth):
                for u in (r, r + "u1/dev", r + "u1/dev/", r + "u1", r + "+api", r + "u1/dev/+f/abc/def/x-1.0.zip", r + "u1/dev?no_projects="):
                    check_equal(c.get_auth(url=u), have, "login for %s" % u)
            check_equal(c.get_basic_auth(r + "u1/dev/pkg"), self.basic.get(r), "basic auth for %s" % r)

    def run(self, *args, env=None):
        rc, out = self.client.run(*args, env=dict(self.env, **(env or {})))
        if self.how is None and "Traceback" in out:
            raise self.client.exc
        for t in self.issued:
            check(t not in out, lambda: "%s shows the login: %s" % (args, out))
        return rc, out

    @property
    def issued(self):
        res = {}
        for x in self.locs.values():
            for t, (u, raw) in x.tokens.items():
                res[t] = (x.root, json.loads(raw.rpartition(".")[0].rpartition(".")[0])[0])
        return res

    def login(self, root, user=None):
        """the login that is used for a server"""
        have = self.auth.get(root)
        if not have:
            return None
        user = user or self.env.get("DEVPI_USER") or self.username or next(iter(have))
        return (user, have[user]) if user in have else None

    def drop(self, root, user):
        have = self.auth[root]
        del have[user]
        self.auth[root] = dict(sorted(have.items()))

    def refresh(self):
        """the client finds out that its login is no longer accepted"""
        have = self.login(self.root)
        if have and have[1] in self.expired:
            self.drop(self.root, have[0])

    def step(self, s):
        k = s["op"]
        self.pending = False
        self.how = s.get("how")
        self.env = {}
        if s["env_user"] is not None and k in ("use", "getjson", "list", "index", "userlist", "setcfg", "useindex", "logoff"):
            self.env = dict(DEVPI_USER=USERS[s["env_user"]])
        if k in ("use", "uselist"):
            root = ROOTS[s["l"]]
            path = INDEXES[s["i"]] if s["i"] >= 0 else ""
            url = root + path + ("/" if path and s.get("slash") else "")
            basic = BASIC.get(root)
            if k == "use":
                cred = s["cred"]
                given = None
                if basic and (root not in self.basic or cred == 1):
                    given = basic
                elif basic and cred == 2:
                    given = ("gate", "wrong")
                if given:
                    from urllib.parse import quote
                    url = url.replace("://", "://%s:%s@" % (given[0], given[1]), 1)
                args = ["use", url] + {0: [], 1: ["--debug"]}[s["extra"]]
                self.pending = True
                if given == basic and given:
                    self.basic_before = dict(self.basic)
                    self.basic[root] = basic
                elif given:
                    saved = self.basic.get(root)
                    self.basic[root] = given
                rc, out = self.run(*args)
                self.monitor(args)
                if given and given != basic:
                    if saved is None:
                        del self.basic[root]
                    else:
                        self.basic[root] = saved
                    check(rc != 0, lambda: "wrong basic auth was accepted: %s" % out)
                    return
                check_equal(rc, 0, "%s: %s" % (args, out))
                self.root, self.index = root, path or None
                self.refresh()
            else:
                if basic and root not in self.basic:
                    return
                if s["url"]:
                    args = ["use", "-l", url]
                    self.pending = True
                elif self.root is None:
                    return
                else:
                    args = ["use", "-l"]
                rc, out = self.run(*args)
                self.monitor(args)
                check_equal(rc, 0, "%s: %s" % (args, out))
                for i in INDEXES:
                    check(i in out, lambda: "%s does not list %s: %s" % (args, i, out))
                if s["url"]:
                    # logins which are no longer accepted are dropped, also those of the other server
                    self.adopt_dropped(root)
                elif self.index:
                    # without an index the current server is not asked about the login
                    self.refresh()
        elif k == "useindex":
            user, name = INDEXES[s["i"]].split("/")
            arg = {"user/index": "%s/%s", "/user/index": "/%s/%s", "/user/index/": "/%s/%s/"}.get(s["form"])
            arg = arg % (user, name) if arg else ("/" if s["form"] == "/" else name)
            target = "%s/%s" % (user, name)
            self.pending = True
            if s["form"] == "name":
                if not self.login(self.root):
                    return
                target = "%s/%s" % (self.login(self.root)[0], name)
                ok = target in INDEXES
            else:
                ok = True
            if s["form"] == "/":
                target = None
            before = self.client.files()
            rc, out = self.run("use", arg)
            self.monitor(["use", arg])
            if self.root is None or not ok:
                check(rc != 0, lambda: "use %s worked without server: %s" % (arg, out))
                check_equal(self.client.files().get("current.json"), before.get("current.json"), "settings after a failure")
            else:
                check_equal(rc, 0, "use %s: %s" % (arg, out))
                self.index = target
                self.refresh()
        elif k == "usemissing":
            if self.root is None and "://" not in s["what"]:
                return
            self.pending = True
            before = self.client.files()
            rc, out = self.run("use", s["what"])
            self.monitor(["use", s["what"]])
            check(rc != 0, lambda: "use %s worked: %s" % (s["what"], out))
            check_equal(self.client.files().get("current.json"), before.get("current.json"), "settings after a failure")
            self.adopt_dropped(None)
        elif k == "useevil":
            self.pending = True
            url = EVIL[s["e"]] + s["path"]
            args = ["use", "-l", url] if s["ls"] else ["use", url]
            rc, out = self.run(*args)
            self.monitor(args)
            cur, auth = self.settings()
            if not s["ls"] and rc == 0:
                # connected to a strange server: go back
                self.root, self.index = None, None
                rc, out = self.run("use", "--delete")
                self.monitor(["use", "--delete"])
                self.username = None
            elif not s["ls"]:
                cur, auth = self.settings()
                if cur.get("login") != (self.root and self.root + "+login"):
                    self.run("use", "--delete")
                    self.monitor(["use", "--delete"])
                    self.root = self.index = self.username = None
            self.adopt_dropped(None)
        elif k == "login":
            if self.root is None:
                return
            user = USERS[s["u"]]
            before = set(self.issued)
            self.pending = True
            rc, out = self.run("login", user, "--password", "pw" if s["good"] else "bad")
            self.monitor(["login", user])
            if not s["good"]:
                check(rc != 0, lambda: "login with a wrong password worked: %s" % out)
                return
            check_equal(rc, 0, "login %s: %s" % (user, out))
            new = set(self.issued) - before
            check_equal(len(new), 1, "number of new logins")
            old = self.auth.get(self.root, {})
            old.pop(user, None)
            # the newest is the first
            self.auth[self.root] = dict([(user, new.pop())] + sorted(old.items()))
            self.username = user
        elif k == "logoff":
            if self.root is None:
                return
            rc, out = self.run("logoff")
            check_equal(self.monitor(["logoff"]), [], "requests of logoff")
            check_equal(rc, 0, "logoff: %s" % out)
            if self.login(self.root):
                self.drop(self.root, self.login(self.root)[0])
                check("deleted" in out, lambda: "logoff: %s" % out)
        elif k == "getjson":
            form = s["form"]
            if form == "evil":
                args = ["getjson", EVIL[s["e"]] + "x"]
                self.pending = True
                self.run(*args)
                self.monitor(args)
                self.adopt_dropped(None)
                return
            if form == "url":
                want = ROOTS[s["l"]] + "u1"
                args = ["getjson", want]
                if with_port(ROOTS[s["l"]]) and ROOTS[s["l"]] in BASIC and ROOTS[s["l"]] not in self.basic:
                    return
                self.pending = True
            else:
                if self.root is None:
                    return
                if form == "rel":
                    if not self.index:
                        return
                    args, want = ["getjson", "pkg"], self.url(self.index) + "/pkg"
                else:
                    args, want = ["getjson", form], self.root + form[1:]
            rc, out = self.run(*args)
            sent = self.monitor(args)
            check(sent and sent[0][0].url == want, lambda: "%s asks %s instead of %s" % (args, [r.url for r, x in sent], want))
        elif k == "remove":
            if self.index is None:
                return
            self.pending = True
            base = EVIL[s["e"]] if s["evil"] else ROOTS[s["l"]]
            if not s["evil"] and base in BASIC and base not in self.basic:
                return
            args = ["remove", "-y", base + "u1/dev/+f/abc/0123456789abc/pkg-1.0.zip"]
            rc, out = self.run(*args)
            sent = self.monitor(args)
            check(sent and sent[0][0].url == args[2] and sent[0][0].method.upper() == "DELETE", lambda: "%s sends %s" % (args, [r.url for r, x in sent]))
            self.adopt_dropped(None)
        elif k in ("list", "index"):
            if self.index is None:
                return
            env, args, want = None, [k], self.url(self.index)
            name = INDEXES[s["i"]] if s["i"] >= 0 else None
            if name and k == "list" and s["env"]:
                env, want = {"DEVPI_INDEX": name}, self.url(name)
                self.pending = True
            elif name and k == "list":
                args, want = ["list", "--index", name], self.root + name
            elif name:
                args, want = ["index", name], self.root + name
            before = self.client.files()
            rc, out = self.run(*args, env=env)
            sent = self.monitor((args, env))
            check_equal(rc, 0, "%s: %s" % (args, out))
            from urllib.parse import quote, unquote
            urls = [unquote(r.url.split("?")[0]).rstrip("/") for r, x in sent]
            check_equal(urls[-1], unquote(want), "URL asked by %s %s" % (args, env))
            if env:
                check_equal(self.client.files().get("current.json"), before.get("current.json"), "settings after a temporary index")
                self.adopt_dropped(self.root)
            else:
                self.refresh_401(sent)
        elif k == "userlist":
            if self.root is None:
                return
            rc, out = self.run("user", "-l")
            sent = self.monitor(["user", "-l"])
            check_equal(rc, 0, "user -l: %s" % out)
            check_equal([r.url for r, x in sent], [self.root], "URL asked by user -l")
            check_equal(sorted(out.split()), sorted(USERS), "users")
        elif k == "usedelete":
            have = "current.json" in self.client.files()
            rc, out = self.run("use", "--delete")
            check_equal(self.monitor(["use", "--delete"]), [], "requests")
            check_equal(rc, 0 if have else 1, "use --delete: %s" % out)
            self.root = self.index = self.username = None
        elif k == "setcfg":
            self.setcfg(s)
        elif k == "hijack":
            # a server which redirects to another host
            root = ROOTS[s["l"]]
            if root != self.root or self.index is None or root in BASIC:
                return
            if EVIL[s["e"]].startswith(root.replace("http:", "https:").partition("/devpi")[0]):
                # an upgrade to https of the same host is followed with the login
                return
            self.pending = True
            self.hijack = (root, EVIL[s["e"]])
            self.how = "200"
            try:
                for args in (["getjson", "/u1"], ["list"], ["use", "u1/prod"]):
                    self.client.run(*args)
                    for req, status in self.net.take():
                        if req.url.startswith(root):
                            continue
                        check(req.auth() is None and req.auth("authorization") is None, lambda: "after a redirect a login is sent to %s: %s" % (req.url, req.auth()))
            finally:
                self.hijack = None
            self.client.run("use", "--delete")
            self.net.take()
            self.root = self.index = self.username = None
            self.adopt_dropped(None)
        elif k == "revoke":
            loc = self.locs[ROOTS[s["l"]]]
            for t, (u, raw) in list(loc.tokens.items()):
                if not raw.endswith("x"):
                    loc.tokens[t] = (u, raw + "x")
                    self.expired.add(t)

    def url(self, ix):
        from urllib.parse import quote
        return self.root + quote(ix)

    def adopt_dropped(self, root):
        """which rejected logins are dropped here is left open, but only rejected ones, or the one of the current server"""
        cur, auth = self.settings()
        got = {r: dict(v) for r, v in (auth.get("auth") or {}).items()}
        for r, users in self.auth.items():
            for u, t in list(users.items()):
                if u not in got.get(r, {}) and (t in self.expired or ((u, t) == self.login(self.root) and r == self.root and self.how in ("401-location", "api"))):
                    self.drop(r, u)

    def refresh_401(self, sent):
        if any(x == 401 for r, x in sent):
            self.adopt_dropped(None)

    def setcfg(self, s):
        from urllib.parse import quote
        if self.root is None:
            return
        target = INDEXES[s["i"]]
        h = home()
        files = {os.path.join(h, ".pydistutils.cfg"): ("index_url", "[easy_install]\nfoo = 1\n", "index_url = %s"),
                 os.path.join(h, ".config/pip/pip.conf"): ("index_url", "[global]\ntimeout = 7\n[other]\nx=y\n", "index_url = %s")}
        for p, (key, text, line) in files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p):
                with open(p, "w") as f:
                    f.write(text)
        self.pending = True
        rc, out = self.run("use", "--set-cfg", target)
        self.monitor(["use", "--set-cfg", target])
        check_equal(rc, 0, "use --set-cfg: %s" % out)
        self.index = target
        self.refresh()
        simple = self.root + quote(target) + "/+simple/"
        b = self.basic.get(self.root)
        if b:
            a, _, rest = simple.partition("://")
            simple = "%s://%s:%s@%s" % (a, quote(b[0]), quote(b[1]), rest)
            check(quote(b[1]) not in out and b[1] not in out, lambda: "the output shows the password: %s" % out)
        import re
        for p, (key, text, line) in files.items():
            with open(p) as f:
                lines = f.read().splitlines()
            found = [re.split(r"\s*=\s*", x, maxsplit=1)[1] for x in lines if re.match(r"index[_-]url\s*=", x)]
            check_equal(found, [simple], "index URL in %s" % p)
            for x in text.splitlines():
                check(x in lines, lambda: "the line %r of %s is lost: %s" % (x, p, lines))
            section = None
            for x in lines:
                if x.startswith("["):
                    section = x
                if re.match(r"index[_-]url\s*=", x):
                    check_equal(section, text.splitlines()[0], "section of the index URL in %s" % p)


def with_port(root):
    s, _, rest = root.partition("://")
    host, _, path = rest.partition("/")
    if ":" not in host:
        host += ":80" if s == "http" else ":443"
    return "%s://%s/%s" % (s, host, path)


def run(case, ctx):
    import shutil
    h = home()
    for n in os.listdir(h):
        p = os.path.join(h, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    w = World(ctx)
    try:
        logins = 0
        for s in case["ops"]:
            w.step(s)
            w.env = {}
            w.compare(s)
            ctx.label(s["op"])
            logins = max(logins, sum(map(len, w.auth.values())))
        if len({r for r, v in w.auth.items()}) >= 2 or (logins and any(s["op"] in ("useevil", "hijack", "remove", "getjson") for s in case["ops"])):
            ctx.mark()
    finally:
        w.client.close()


def subs():
    return [Sub("commands", lambda: cases, run, quick=800, thorough=24000, shards=8,
                rule="4-16 commands (use, login, logoff, getjson, list, index, remove, user, configuration of pip) against seven root URLs with and without paths, ports and basic auth, and hostile servers; "
                     "non-trivial if logins of two servers exist, or a login exists and a foreign URL was used")]
