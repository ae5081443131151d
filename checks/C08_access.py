"""C08: requests are allowed exactly as the access rules say."""
from vt import boot  # noqa: F401
import base64
import itertools
import json
from urllib.parse import urlsplit
from hypothesis import strategies as st
from vt.core import Sub, Exhaustive, check
from vt.gen import weighted
from vt import observe

LEVEL = "exploration"
TECHNIQUE = "matrix enumeration and generated request histories against a reference access model (ownership, ACLs, groups, root, restriction option), with an unchanged-database invariant for every rejected request"
LEVEL_NOTE = "The matrix sub-check enumerates restriction option x upload/test-result/read ACL x caller x operation completely over its listed values; the histories are random search. Trusts the reference model in checks/C08_access.py."
ASSUMPTIONS = ["an operation whose target does not exist or already exists may be answered with 404/409 instead of 401/403, but still changes nothing",
               "groups, users without a stored user object and the read ACL come from a plugin registered by the check, as the plugin interface documents them"]

EVERYONE, AUTHED = ":ANONYMOUS:", ":AUTHENTICATED:"
STORED = ["alice", "bob", "root", "Alice", "devs"]
# user -> groups, authenticated by the plugin, without a stored user object
PLUGIN = {"dave": ["devs"], "erin": [], "frank": ["alice", "root"]}
PW = "pw"
CALLERS = [None, "root", "alice", "bob", "dave", "erin"]
ACLS = [["alice"], [], [EVERYONE], [AUTHED], [":devs"], ["bob", "root"]]
RESTRICT = [None, "root", "alice", "bob, :devs"]
OWNER = {"alice/dev": "alice", "bob/src": "bob"}
STYLES = ["token", "basic-token", "basic-password", "header-password"]

_servers = {}


class Plugin:
    """groups and the read ACL, as the documented hooks provide them"""

    def devpiserver_auth_request(self, request, userdict, username, password):
        if username in PLUGIN and password == PW:
            return dict(status="ok", groups=list(PLUGIN[username]))

    def devpiserver_indexconfig_defaults(self, index_type):
        from devpi_server.model import ACLList
        return {"acl_pkg_read": ACLList([EVERYONE])}

    def devpiserver_stage_get_principals_for_pkg_read(self, ixconfig):
        return ixconfig.get("acl_pkg_read", None)


def make_plugin():
    from devpi_server.config import hookimpl
    ns = {k: hookimpl(v) for k, v in vars(Plugin).items() if k.startswith("devpiserver")}
    return type("AccessPlugin", (), ns)()


class World:
    def __init__(self, restrict):
        from vt.server import Server
        opts = () if restrict is None else ("--restrict-modify", restrict)
        self.restrict = None if restrict is None else {x.strip() for x in restrict.split(",")}
        self.s = Server(start=(), opts=opts, extra_plugins=(make_plugin(),))
        self.n = 0
        self.acl = {ix: dict(upload=[o], tox=[EVERYONE], read=[EVERYONE]) for ix, o in OWNER.items()}
        self.files = {}
        self.tokens = {}

    def close(self):
        self.s.close()

    # fixtures, made below the HTTP layer

    def ensure(self):
        s = self.s
        missing = []
        with s.keyfs.read_transaction():
            m = s.model
            for u in STORED:
                if m.get_user(u) is None:
                    missing.append(("user", u))
            for u in PLUGIN:
                if m.get_user(u) is not None:
                    missing.append(("nouser", u))
            for ix in OWNER:
                st_ = m.getstage(*ix.split("/"))
                f = self.files.get(ix)
                if st_ is None:
                    missing.append(("index", ix))
                    self.files.pop(ix, None)
                    f = None
                if f is None or not self._exists(f):
                    missing.append(("file", ix))
        if not missing:
            return
        with s.keyfs.write_transaction():
            m = s.model
            for what, name in missing:
                if what == "user":
                    m.create_user(name, "" if name == "root" else PW)
                elif what == "nouser":
                    m.get_user(name).delete()
                elif what == "index":
                    user, ix = name.split("/")
                    a = self.acl[name]
                    m.get_user(user).create_stage(ix, volatile=True, bases=(), acl_upload=a["upload"], acl_toxresult_upload=a["tox"], acl_pkg_read=a["read"])
                else:
                    stage = m.getstage(*name.split("/"))
                    self.n += 1
                    v = "0.%d" % self.n
                    stage.set_versiondata(dict(name="pkg", version=v))
                    link = stage.store_releasefile("pkg", v, "pkg-%s.tar.gz" % v, b"fixture %d" % self.n)
                    self.files[name] = (v, link.entrypath)

    def set_acls(self, ix, acl):
        self.acl[ix] = acl
        with self.s.keyfs.write_transaction():
            stage = self.s.model.getstage(*ix.split("/"))
            stage.modify(acl_upload=acl["upload"], acl_toxresult_upload=acl["tox"], acl_pkg_read=acl["read"])

    def _exists(self, f):
        e = self.s.xom.filestore.get_file_entry(f[1])
        return e is not None and bool(e.meta) and e.file_exists()

    # credentials

    def headers(self, caller, style):
        if caller is None:
            return {}
        pw = "" if caller == "root" else PW
        if style == "bad":
            return {"X-Devpi-Auth": base64.b64encode(("%s:%sx" % (caller, pw)).encode()).decode()}
        if style == "noise":
            return {"X-Devpi-Auth": "%%%", "Authorization": "Basic ???"}
        if "token" in style:
            if caller not in self.tokens:
                r = self.s.send_json("POST", "/+login", dict(user=caller, password=pw))
                check(r.status_code == 200, "login of %s: %s" % (caller, r.status_code))
                self.tokens[caller] = r.json["result"]["password"]
            pw = self.tokens[caller]
        val = base64.b64encode(("%s:%s" % (caller, pw)).encode()).decode()
        return {"Authorization": "Basic " + val} if style.startswith("basic") else {"X-Devpi-Auth": val}

    # the reference model

    def who(self, caller):
        res = {EVERYONE}
        if caller is not None:
            res |= {AUTHED, caller}
            res |= {":" + g for g in PLUGIN.get(caller, ())}
        return res

    def may(self, caller, perm, target=None):
        who = self.who(caller)
        R = self.restrict
        if perm in ("upload", "tox", "read"):
            acl = set(self.acl[target][perm])
            if perm == "read":
                acl |= {"root"} if R is None else R
            return bool(who & acl)
        if perm == "user_create":
            return True if R is None else bool(who & R)
        if perm in ("user_modify", "index_create"):
            return bool(who & ({"root", target} if R is None else R))
        if perm == "user_delete":
            if R is None:
                return target != "root" and bool(who & {"root", target})
            return bool(who & (R - {target}))
        admin = {"root", OWNER[target]} if R is None else R
        if perm == "index_admin":
            return bool(who & admin)
        if perm == "del":
            return bool(who & (admin | set(self.acl[target]["upload"])))
        raise AssertionError(perm)

    # operations: returns (allowed, response, kind); kind "read"/"write"

    def do(self, op, caller, hs):
        s = self.s
        name, target = op["op"], op.get("t")
        self.n += 1
        v = "1.%d" % self.n
        js = {"Accept": "application/json"}
        js.update(hs)

        def form(path, action, file=None, method="POST"):
            return s.post_form(path, [(":action", action), ("name", "pkg"), ("version", v), ("summary", "s%d" % self.n)], file=file, headers=hs)
        if name in ("upload", "submit", "doc"):
            action, file = dict(
                upload=("file_upload", ("content", "pkg-%s.tar.gz" % v, b"c%d" % self.n)), submit=("submit", None),
                doc=("doc_upload", ("content", "pkg-%s.doc.zip" % v, b"PK\x05\x06" + b"\0" * 18)))[name]
            if name == "doc":   # documentation needs a registered version
                v = self.files[target][0]
                file = (file[0], "pkg-%s.doc.zip" % v, b"PK\x05\x06" + b"\0" * 18)
            path = "/%s%s" % (target, "/" if op["slash"] else "")
            r = form(path, action, file)
            return self.may(caller, "upload", target), r, "write"
        if name == "push":
            src, dst = op["t"], op["t2"]
            data = json.dumps(dict(name="pkg", version=self.files[src][0], targetindex=dst)).encode()
            r = s.request(op["method"], "/%s%s" % (src, "/" if op["slash"] and op["method"] == "PUSH" else ""), data,
                          headers=dict(js, **{"Content-Type": "application/json"}))
            return self.may(caller, "read", src) and self.may(caller, "upload", dst), r, "maywrite"
        if name == "tox":
            r = s.request("POST", "/" + self.files[target][1], json.dumps(dict(n=self.n, testenvs={})).encode(), headers=js)
            return self.may(caller, "tox", target), r, "write"
        if name == "delete":
            ver, entry = self.files[target]
            path = dict(file="/" + entry, fileE="/" + entry.replace("/+f/", "/+e/", 1), version="/%s/pkg/%s" % (target, ver), project="/%s/pkg" % target)[op["what"]]
            if op["what"] == "fileE":   # files of private indexes are not below +e
                path = "/" + entry
            r = s.delete(path + ("?force" if op["slash"] else ""), headers=hs)
            return self.may(caller, "del", target), r, "write"
        if name == "delindex":
            r = s.delete("/%s%s" % (target, "/" if op["slash"] else ""), headers=hs)
            return self.may(caller, "index_admin", target), r, "write"
        if name == "patch":
            data = dict(title="t%d" % self.n) if not op["list"] else ["title=t%d" % self.n]
            r = s.send_json("PATCH", "/%s%s" % (target, "/" if op["slash"] else ""), data, headers=hs)
            return self.may(caller, "index_admin", target), r, "write"
        if name == "putindex":
            user = op["u"]
            r = s.send_json("PUT", "/%s/n%d%s" % (user, self.n, "/" if op["slash"] else ""), dict(bases=[]), headers=hs)
            ok = self.may(caller, "index_create", user)
            if user not in STORED:
                # the user object is made on the fly, but only for its user
                ok = ok and caller == user and self.may(caller, "user_create")
                return ok, r, "write404"
            return ok, r, "write"
        if name == "putuser":
            r = s.send_json("PUT", "/nu%d%s" % (self.n, "/" if op["slash"] else ""), dict(password="x"), headers=hs)
            return self.may(caller, "user_create"), r, "write"
        if name == "sysname":
            # names which mean something to the access machinery are nobody in particular
            nm = op["n"]
            r = s.send_json("PUT", "/" + nm, dict(password="x"), headers=hs)
            if r.status_code == 201:
                for who in (None, "erin"):
                    r2 = s.send_json("PATCH", "/" + nm, dict(email="e%d" % self.n), headers=self.headers(who, "header-password"))
                    allowed = self.may(who, "user_modify", nm)
                    check((r2.status_code == 200) == allowed, "PATCH of user %r by %s -> %s" % (nm, who, r2.status_code))
                with s.keyfs.write_transaction():
                    s.model.get_user(nm).delete()
                return self.may(caller, "user_create"), r, "write"
            check(r.status_code in (400, 401, 403), "PUT of user %r -> %s" % (nm, r.status_code))
            return self.may(caller, "user_create"), r, "maybad"
        if name == "putdup":
            r = s.send_json("PUT", "/" + op["u"], dict(password="x"), headers=hs)
            return False, r, "write404"
        if name == "patchuser":
            user = op["u"]
            data = dict(email="e%d@x" % self.n)
            if op["list"]:
                data["password"] = "" if user == "root" else PW
                # a new salt makes it a change
            r = s.send_json("PATCH", "/%s%s" % (user, "/" if op["slash"] else ""), data, headers=hs)
            ok = self.may(caller, "user_modify", user)
            return ok, r, "write" if user in STORED else "write404"
        if name == "deluser":
            user = op["u"]
            r = s.delete("/%s%s" % (user, "/" if op["slash"] else ""), headers=hs)
            ok = self.may(caller, "user_delete", user)
            return ok, r, "write" if user in STORED else "write404"
        if name == "file":
            p = "/" + self.files[target][1]
            how = op["how"]
            if how == "authcheck":
                r = s.request("GET", "/+authcheck", headers=dict(hs, **{"X-Original-URI": s.base + p}))
            else:
                r = s.request(how, p, headers=hs)
            return self.may(caller, "read", target), r, "read"
        if name == "page":
            path = ["/", "/+api", "/%s/+api" % target, "/%s" % target, "/%s/+simple/" % target, "/%s/+simple/pkg/" % target, "/%s/pkg" % target, "/alice"][op["w"]]
            return True, s.request("GET", path, headers=js), "read"
        if name == "refresh":
            r = s.request("POST", "/%s/+simple/pkg/refresh" % target, headers=js)
            return True, r, "read"
        raise AssertionError(name)

    def step(self, op, caller, style, ctx=None):
        self.ensure()
        hs = self.headers(caller, style)
        eff = None if style in ("bad", "noise") else caller
        serial = self.s.serial
        disk = observe.disk_files(self.s.path + "/+files")
        allowed, r, kind = self.do(op, eff, hs)
        what = "%s by %s (%s), restrict=%r, acls=%s -> %s %s" % (
            op, caller, style, sorted(self.restrict) if self.restrict is not None else None, self.acl, r.status_code, r.text[:200])
        code = r.status_code
        check(code < 500, lambda: "server error: " + what)
        changed = self.s.serial != serial
        denied = code in (401, 403)
        if kind == "write404" and not allowed:
            check(code in (401, 403, 404, 409), lambda: "must be rejected: " + what)
        elif allowed and kind == "write404" and op["op"] in ("patchuser", "deluser"):
            check(code == 404, lambda: "allowed, but the user does not exist: " + what)
        elif allowed:
            check(not denied, lambda: "must be allowed: " + what)
            check(kind == "maybad" or 200 <= code < 400, lambda: "allowed, but it failed: " + what)
        else:
            check(denied, lambda: "must be rejected with 401/403: " + what)
        if code >= 400:
            check(not changed, lambda: "a rejected request made a commit: " + what)
            check(observe.disk_files(self.s.path + "/+files") == disk, lambda: "a rejected request changed files: " + what)
            if op["op"] == "file":
                check(b"fixture" not in r.body, lambda: "content in a rejected response: " + what)
        elif kind in ("write", "write404"):
            check(changed, lambda: "an allowed request changed nothing: " + what)
        if ctx is not None:
            ctx.label("denied" if denied else "allowed" if code < 400 else "other")
        # tokens of removed users stay usable once the fixture exists again
        return denied, code < 400


def all_ops():
    B = (False, True)
    for t in ("alice/dev", "bob/src"):
        for name in ("upload", "submit", "doc"):
            yield dict(op=name, t=t, slash=True)
        yield dict(op="upload", t=t, slash=False)
        yield dict(op="tox", t=t)
        for how in ("GET", "HEAD", "authcheck"):
            yield dict(op="file", t=t, how=how)
        yield dict(op="patch", t=t, slash=False, list=True)
        yield dict(op="patch", t=t, slash=True, list=False)
        for what in ("file", "version", "project"):
            yield dict(op="delete", t=t, what=what, slash=False)
        yield dict(op="delindex", t=t, slash=False)
    for a, b in (("alice/dev", "bob/src"), ("bob/src", "alice/dev")):
        for m in ("PUSH", "POST"):
            yield dict(op="push", t=a, t2=b, method=m, slash=False)
    for u in ("alice", "bob", "root", "dave"):
        yield dict(op="putindex", u=u, slash=u == "bob")
        yield dict(op="patchuser", u=u, list=False, slash=u == "alice")
        yield dict(op="deluser", u=u, slash=u == "bob")
    yield dict(op="putuser", slash=False)
    yield dict(op="putdup", u="alice")
    yield dict(op="sysname", n="system.Everyone")
    yield dict(op="sysname", n="system.Authenticated")
    yield dict(op="delindex", t="alice/dev", slash=True)
    for w in range(8):
        yield dict(op="page", t="alice/dev", w=w)
    del B


def matrix(tier):
    for r in range(len(RESTRICT)):
        for a in range(len(ACLS)):
            for c in range(len(CALLERS)):
                yield dict(restrict=r, acl=a, caller=c)


def run_matrix(case, ctx):
    r = RESTRICT[case["restrict"]]
    if r not in _servers:
        _servers[r] = World(r)
    w = _servers[r]
    acl = ACLS[case["acl"]]
    try:
        w.ensure()
        # the index under test has the ACL everywhere; the other one only for reading
        w.set_acls("alice/dev", dict(upload=acl, tox=acl, read=[EVERYONE]))
        w.set_acls("bob/src", dict(upload=["bob"], tox=[EVERYONE], read=acl))
        caller = CALLERS[case["caller"]]
        res = set()
        for i, op in enumerate(all_ops()):
            style = STYLES[(i + case["acl"] + case["caller"]) % 4]
            res.add(w.step(op, caller, style, ctx))
        if len(res) > 1:
            ctx.mark()
    except BaseException:
        _servers.pop(r).close()
        raise


# -- histories

_names = st.sampled_from(["alice", "bob", "root", "Alice", "devs", ":devs", ":alice", ":root", EVERYONE, AUTHED, ":anonymous:", ":authenticated:", "anonymous", "authenticated", "alic", "alice2", "+replica", "ANONYMOUS"])
_acl = st.lists(_names, max_size=4)
_acls = st.fixed_dictionaries(dict(upload=_acl, tox=_acl, read=_acl))
_caller = weighted((3, st.sampled_from(CALLERS)), (2, st.sampled_from(STORED + list(PLUGIN) + [None])))
_style = weighted((8, st.sampled_from(STYLES)), (1, st.sampled_from(["bad", "noise"])))
_t = st.sampled_from(sorted(OWNER))
_s = st.sampled_from(STORED)
_u = st.sampled_from(["alice", "bob", "root", "dave", "erin", "frank", "Alice", "devs"])
_b = st.booleans()


def cases():
    def o(name, **kw):
        return st.fixed_dictionaries(dict(op=st.just(name), **kw))
    ops = weighted(
        (3, o("upload", t=_t, slash=_b)), (1, o("submit", t=_t, slash=_b)), (1, o("doc", t=_t, slash=_b)), (2, o("tox", t=_t)),
        (2, o("push", t=_t, t2=_t, method=st.sampled_from(["PUSH", "POST"]), slash=_b)),
        (3, o("delete", t=_t, what=st.sampled_from(["file", "version", "project"]), slash=_b)),
        (1, o("delindex", t=_t, slash=_b)), (2, o("patch", t=_t, slash=_b, list=_b)),
        (2, o("putindex", u=_u, slash=_b)), (1, o("putuser", slash=_b)), (1, o("putdup", u=_s)), (1, o("sysname", n=st.sampled_from(["system.Everyone", "system.Authenticated", "Everyone", "ANONYMOUS"]))),
        (2, o("patchuser", u=_u, list=_b, slash=_b)), (2, o("deluser", u=_u, slash=_b)),
        (2, o("file", t=_t, how=st.sampled_from(["GET", "HEAD", "authcheck"]))), (1, o("page", t=_t, w=st.integers(0, 7))),
        # the owner or root changes the rules through the API
        (4, o("acl", t=_t, key=st.sampled_from(["upload", "tox", "read"]), acl=_acl, how=st.sampled_from(["dict", "list", "string", "op"]))))
    step = st.fixed_dictionaries(dict(what=ops, caller=_caller, style=_style))
    restrict = weighted((2, st.none()), (2, st.lists(st.sampled_from(["root", "alice", "bob", ":devs", "dave", "devs", ":alice", "Alice", "nobody"]), min_size=1, max_size=3, unique=True)))
    return st.fixed_dictionaries(dict(restrict=restrict, a=_acls, b=_acls, steps=st.lists(step, min_size=6, max_size=20)))


def norm_acl(acl):
    return [x.upper() if x.upper() in (EVERYONE, AUTHED) else x for x in acl]


def run(case, ctx):
    restrict = case["restrict"]
    w = World(None if restrict is None else ", ".join(restrict))
    try:
        w.ensure()
        for ix, a in (("alice/dev", case["a"]), ("bob/src", case["b"])):
            w.set_acls(ix, {k: norm_acl(v) for k, v in a.items()})
        seen = set()
        for step in case["steps"]:
            op = step["what"]
            if op["op"] == "acl":
                seen.add(change_acl(w, op, step["caller"], step["style"], ctx))
            else:
                seen.add(w.step(op, step["caller"], step["style"], ctx))
        if (True, False) in seen and (False, True) in seen:
            ctx.mark()
    finally:
        w.close()


def change_acl(w, op, caller, style, ctx):
    """PATCH the rules; later requests follow the new ones only if it was allowed"""
    w.ensure()
    t = op["t"]
    key = dict(upload="acl_upload", tox="acl_toxresult_upload", read="acl_pkg_read")[op["key"]]
    hs = w.headers(caller, style)
    eff = None if style in ("bad", "noise") else caller
    acl = list(dict.fromkeys(op["acl"]))
    new = norm_acl(acl)
    if op["how"] == "dict":
        data = {key: acl}
    elif op["how"] == "string":
        data = {key: ",".join(acl)}
    elif op["how"] == "list":
        data = ["%s=%s" % (key, ",".join(acl))]
    else:
        add = (acl or ["bob"])[0]
        data = ["%s+=%s" % (key, add)]
        new = w.acl[t][op["key"]] + [x for x in norm_acl([add])]
    r = w.s.send_json("PATCH", "/" + t, data, headers=hs)
    allowed = w.may(eff, "index_admin", t)
    what = "%s by %s (%s), restrict=%r -> %s %s" % (data, caller, style, w.restrict, r.status_code, r.text[:200])
    if allowed:
        check(r.status_code == 200, lambda: "changing the access rules must be allowed: " + what)
        w.acl[t] = dict(w.acl[t], **{op["key"]: new})
        ctx.label("acl-change")
    else:
        check(r.status_code in (401, 403), lambda: "changing the access rules must be rejected: " + what)
    return (not allowed, allowed)


def subs():
    return [Exhaustive("matrix", matrix, run_matrix, shards=8, rule="some operation is allowed and another rejected", case_timeout=100),
            Sub("histories", cases, run, quick=160, thorough=6000, rule="at least one request is allowed and one rejected", case_timeout=100)]
