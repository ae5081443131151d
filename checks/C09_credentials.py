"""C09: only valid credentials authenticate and secrets never leak."""
from vt import boot  # noqa: F401
import base64
import binascii
import json
import unicodedata
from urllib.parse import quote
from hypothesis import strategies as st
from vt.core import Sub, check
from vt.gen import weighted, op
from vt import clock

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing of login histories against a user/password model with a leak scan of every response, and generated tamperings of issued tokens against the set of issued ones"
ASSUMPTIONS = ["a token issued for a user who was deleted and created again may or may not be accepted",
               "two spellings of a signature which decode to the same bytes are the same credential",
               "mirror credentials are part of the mirror_url setting of an index and are shown where the setting is shown"]

USERS = ["u1", "u2", "a@b.c", "\u00fcser"]
# also users whose names are easily taken for each other
TOKEN_USERS = USERS + ["U1", "u1-", "u", "A@b.c", "u\u0308ser", "\u65e5\u672c"]
WEEK = 7 * 24 * 3600
LIFE = 10 * 3600
_server = []


def server():
    if not _server:
        from vt.server import Server
        _server.append(Server(start=()))
    return _server[0]


def hdr(user, pw, style):
    val = base64.b64encode(("%s:%s" % (user, pw)).encode("utf-8", "surrogatepass")).decode()
    return {"X-Devpi-Auth": val} if style == "x" else {"Authorization": "Basic " + val}


def authstatus(s, headers):
    """the user the server takes the caller for, None if nobody, False if rejected"""
    r = s.request("GET", "/+api", headers=dict(headers, Accept="application/json"))
    check(r.status_code in (200, 401, 403), lambda: "+api with credentials %r -> %s %s" % (headers, r.status_code, r.text[-300:]))
    if r.status_code != 200:
        return False
    st_ = r.json["result"]["authstatus"]
    return st_[1] if st_[0] == "ok" else None


# -- tokens

TAMPER = ["none", "flip", "drop", "insert", "truncate", "append", "otheruser", "otherpayload", "othersig", "foreign", "replicakey", "swapcase", "age", "payload", "twice", "future", "salt", "user-case", "nosig", "order"]


def token_cases():
    return st.fixed_dictionaries(dict(
        user=st.integers(0, 9), other=st.integers(0, 9), how=st.sampled_from(TAMPER), style=st.sampled_from(["x", "basic", "login"]),
        pos=st.floats(0, 1), ch=st.sampled_from(list("AaZz09-_.=+/ \"'[]{},:\n\0\u00e9!")), bit=st.integers(0, 6),
        age=weighted((3, st.sampled_from([0, 1, LIFE - 2, LIFE - 1, LIFE + 1, LIFE + 2, 2 * LIFE, WEEK, 400 * WEEK])), (1, st.integers(0, 3 * LIFE)))))


def same_credential(a, b):
    """equal up to the spelling of the base64 of the signature"""
    if a == b:
        return True
    pa, _, sa = a.rpartition(".")
    pb, _, sb = b.rpartition(".")

    def dec(x):
        try:
            return base64.urlsafe_b64decode(x.encode("ascii", "ignore") + b"===")
        except (ValueError, binascii.Error):
            return None
    if pa == pb and dec(sa) is not None and dec(sa) == dec(sb):
        return True
    return False


def run_token(case, ctx):
    import itsdangerous
    s = server()
    users = TOKEN_USERS
    for u in users:
        if u not in s.tokens:
            with s.keyfs.write_transaction():
                if s.model.get_user(u) is None:
                    s.model.create_user(u, "pw-of-" + u)
            s.tokens[u] = None
    user, other = users[case["user"]], users[case["other"]]
    clock.reset()
    try:
        def issue(u):
            r = s.send_json("POST", "/+login", dict(user=u, password="pw-of-" + u))
            check(r.status_code == 200, lambda: "login -> %s" % r)
            check(r.json["result"]["expiration"] == LIFE, "expiration")
            return r.json["result"]["password"]
        t = issue(user)
        t2 = issue(other)
        how, ch, name = case["how"], case["ch"], user
        n = min(len(t) - 1, int(case["pos"] * len(t)))
        new = t
        if how == "flip":
            new = t[:n] + chr(ord(t[n]) ^ (1 << case["bit"])) + t[n + 1:]
        elif how == "drop":
            new = t[:n] + t[n + 1:]
        elif how == "insert":
            new = t[:n] + ch + t[n:]
        elif how == "truncate":
            new = t[:n]
        elif how == "append":
            new = t + ch
        elif how == "otheruser":
            name = other
        elif how == "otherpayload":
            new = t.replace(json.dumps(user)[1:-1], json.dumps(other)[1:-1])
            name = other
        elif how == "othersig":
            new = t.rpartition(".")[0] + "." + t2.rpartition(".")[2]
        elif how == "foreign":
            new = itsdangerous.TimedSerializer(b"another secret").dumps([user, [], True])
        elif how == "salt":
            new = itsdangerous.TimedSerializer(s.xom.config.get_auth_secret(), salt=b"other").dumps([user, [], True])
        elif how == "replicakey":
            new = itsdangerous.TimedSerializer(s.xom.config.get_replica_secret()).dumps([user, [], True])
        elif how == "swapcase":
            new = t.swapcase()
        elif how == "payload":
            new = itsdangerous.TimedSerializer(b"x").dumps([other, [], True]).rpartition(".")[0].rpartition(".")[0] + "." + ".".join(t.rsplit(".", 2)[1:])
            name = other
        elif how == "twice":
            new = t + t
        elif how == "user-case":
            name = user.swapcase() if user.swapcase() != user else user + "x"
        elif how == "nosig":
            new = t.rpartition(".")[0]
        elif how == "order":
            new = ".".join(reversed(t.rsplit(".", 2)))
        elif how == "future":
            clock.advance(-case["age"] - 5)
        elif how == "age":
            clock.advance(case["age"])
        style = case["style"]
        fresh = how not in ("age", "future") or (how == "age" and case["age"] <= LIFE)
        valid = name == user and same_credential(new, t) and fresh
        if other == user and name == other and how in ("othersig", "otherpayload", "payload"):
            valid = valid or same_credential(new, t2) and fresh
        ctx.label("valid" if valid else "invalid")
        if not (how == "none" or (new == t and name == user and how not in ("age", "future"))):
            ctx.mark(how)
        if style == "login":
            # a token is no password
            r = s.send_json("POST", "/+login", dict(user=name, password=new))
            check(r.status_code == 401, lambda: "login with a token (%s) -> %s %s" % (how, r.status_code, r.text[:200]))
            return
        try:
            h = hdr(name, new, style)
        except UnicodeEncodeError:
            return
        got = authstatus(s, h)
        want = name if valid else None
        if how == "future":
            check(got in (None, False), "a token from the future was accepted")
            return
        if valid and new not in (t, t2):
            check((got or None) in (None, name), "another spelling authenticated as %r" % got)
            return
        check((got or None) == want, lambda: "token %r of %r sent by %r as %r (%s, age %s): authenticated as %r, expected %r" % (
            t, user, name, new, how, case["age"] if how == "age" else 0, got, want))
    finally:
        clock.reset()


# -- histories

_secretish = st.text(st.characters(blacklist_categories=("Cs",)), max_size=12)
PWS = ["", "x", "pw", "PW", "pw ", " pw", "pw\0", "pw\0x", "p:w", ":", "pa\u00dfwort", "pas\u0301s", unicodedata.normalize("NFC", "pas\u0301s"), "p" * 200, "p" * 201, "p" * 73, "p" * 72, "\U0001f511", "None", "root"]
_pw = weighted((3, st.integers(0, len(PWS) - 1)), (2, _secretish.map(lambda x: "S3" + x + "kret")))
_u = weighted((5, st.integers(0, 1)), (1, st.integers(2, 4)))
_by = weighted((3, st.just("self")), (2, st.just("root")), (1, st.just(None)), (1, st.just("other")))


def cases():
    table = weighted(
        (5, op("create", u=_u, pw=_pw)),
        (5, op("modify", u=_u, pw=_pw, by=_by)),
        (3, op("delete", u=_u, by=_by)),
        (8, op("login", u=_u, pw=_pw)),
        (6, op("loginok", u=_u)),
        (6, op("basic", u=_u, pw=_pw, style=st.sampled_from(["x", "basic"]))),
        (3, op("near", u=_u, how=st.integers(0, 7), style=st.sampled_from(["x", "basic", "login"]))),
        (6, op("token", w=st.integers(0, 6), style=st.sampled_from(["x", "basic"]))),
        (2, op("advance", t=st.sampled_from([60, LIFE // 2, LIFE - 30, LIFE + 30]))),
        (1, op("restart")),
        (2, op("legacy", u=_u, pw=_pw)),
        (2, op("hash", u=_u, pw=_pw, by=_by, bad=st.booleans())),
        (1, op("email", u=_u, by=_by)),
        (1, op("plugin", what=st.sampled_from(["index", "good", "bad", "basicbad"]))),
        (1, op("replica", how=st.integers(0, 5))),
        (5, op("look", w=st.integers(0, 11))))
    return st.fixed_dictionaries(dict(first=_pw, ops=st.lists(table, min_size=12, max_size=30)))


class Plug:
    pass


def make_plugin():
    from devpi_server.config import hookimpl

    def devpiserver_auth_request(self, request, userdict, username, password):
        # a plugin like the LDAP one: knows a user, ignores wrong passwords
        if username == "dave" and password == "plugin-S3kret":
            return dict(status="ok", groups=["devs"])
        return None
    return type("P", (), dict(devpiserver_auth_request=hookimpl(devpiserver_auth_request)))()


def run(case, ctx):
    from vt.server import Server
    clock.reset()
    h = History(Server(start=(), extra_plugins=(make_plugin(),), keep=True), ctx)
    try:
        for u in (0, 1):
            h.do(dict(op="create", u=u, pw=case["first"]))
        for o in case["ops"]:
            h.do(o)
    finally:
        h.s.keep = False
        h.s.close()
        clock.reset()


class History:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        self.pw = {"root": ""}      # None: nothing authenticates
        self.gen = {"root": 0}
        self.ngen = 0
        self.tokens = []            # (user, generation, token, issue time)
        self.secrets = set()        # never in a response
        self.pwsecrets = {"plugin-S3kret"}
        s.request = self.wrap(s.request)

    def wrap(self, request):
        def wrapped(method, path, body=b"", headers=None, **kw):
            r = request(method, path, body, headers=headers, **kw)
            self.scan(r, "%s %s" % (method, path))
            check(r.status_code < 500, lambda: "%s %s %r -> %s %s" % (method, path, body[:200], r.status_code, r.text[-300:]))
            return r
        return wrapped

    def scan(self, r, what):
        text = r.text + "\n" + "\n".join("%s: %s" % x for x in r.headers.items())
        for x in self.secrets | self.pwsecrets:
            for form in {x, json.dumps(x)[1:-1], repr(x)[1:-1], quote(x)}:
                check(form not in text, lambda: "the response to %s (status %s) reveals %r: %s" % (what, r.status_code, x, text[max(0, text.find(form) - 80):][:300]))

    def refresh_secrets(self):
        """hashes and salts stored now"""
        with self.s.keyfs.read_transaction():
            for u in self.s.model.get_userlist():
                d = u.get(credentials=True)
                for k in ("pwhash", "pwsalt"):
                    v = d.get(k)
                    if isinstance(v, str) and len(v) >= 12:
                        self.secrets.add(v)
                        if "$" in v:
                            self.secrets.add(v.rsplit("$", 1)[1])

    def note(self, pw):
        if pw.startswith("S3") and pw.endswith("kret"):
            self.pwsecrets.add(pw)

    def user(self, i):
        return (USERS + ["root"])[i]

    def pwval(self, x):
        pw = PWS[x] if isinstance(x, int) else x
        self.note(pw)
        return pw

    def auth(self, by, user):
        """headers and name of the acting user"""
        if by == "self":
            name = user
        elif by == "root":
            name = "root"
        elif by == "other":
            name = "u2" if user != "u2" else "u1"
        else:
            return {}, None
        if self.pw.get(name) is None:
            return {}, None
        return hdr(name, self.pw[name], "x"), name

    def expect_login(self, user, pw):
        r = self.s.send_json("POST", "/+login", dict(user=user, password=pw))
        want = self.pw.get(user) is not None and self.pw[user] == pw
        check((r.status_code == 200) == want, lambda: "login of %r with %r (current: %r) -> %s" % (user, pw, self.pw.get(user), r.status_code))
        if want:
            self.tokens.append((user, self.gen[user], r.json["result"]["password"], clock.now()))
            self.ctx.label("login")
        else:
            check(r.status_code == 401, "login -> %s" % r.status_code)
            self.ctx.label("login-rejected")
            if pw != "" and self.pw.get(user) is not None:
                self.ctx.mark()

    def expect_basic(self, user, pw, style):
        got = authstatus(self.s, hdr(user, pw, style))
        want = user if self.pw.get(user) is not None and self.pw[user] == pw else None
        check((got or None) == want, lambda: "%r with %r (current: %r) authenticates as %r" % (user, pw, self.pw.get(user), got))

    def do(self, o):
        s = self.s
        k = o["op"]
        user = self.user(o["u"]) if "u" in o else None
        url = "/" + quote(user) if user else None
        if k == "create":
            pw = self.pwval(o["pw"])
            r = s.send_json("PUT", url, dict(password=pw, email="e@x"))
            if user in self.gen:
                check(r.status_code == 409, lambda: "create of an existing user -> %s" % r.status_code)
            else:
                check(r.status_code == 201, lambda: "create -> %s" % r)
                self.pw[user] = pw
                self.ngen += 1
                self.gen[user] = self.ngen
        elif k == "modify":
            pw = self.pwval(o["pw"])
            hs, by = self.auth(o["by"], user)
            r = s.send_json("PATCH", url, dict(password=pw), headers=hs)
            if by in ("root", user) and by is not None and user in self.gen:
                check(r.status_code == 200, lambda: "changing the password -> %s" % r)
                self.pw[user] = pw
                self.tokens.append((user, self.gen[user], r.json["result"]["password"], clock.now()))
            else:
                check(r.status_code in (401, 403, 404), lambda: "changing the password of %s by %s -> %s" % (user, by, r.status_code))
        elif k == "email":
            hs, by = self.auth(o["by"], user)
            s.send_json("PATCH", url, dict(email="new@x"), headers=hs)
        elif k == "delete":
            hs, by = self.auth(o["by"], user)
            r = s.delete(url, headers=hs)
            if by in ("root", user) and by is not None and user in self.gen and user != "root":
                check(r.status_code == 200, lambda: "delete -> %s" % r)
                self.pw.pop(user)
                self.gen.pop(user)
            else:
                check(r.status_code in (401, 403, 404), lambda: "delete of %s by %s -> %s" % (user, by, r.status_code))
        elif k == "login":
            self.expect_login(user, self.pwval(o["pw"]))
        elif k == "loginok":
            self.expect_login(user, self.pw.get(user) or "")
        elif k == "basic":
            self.expect_basic(user, self.pwval(o["pw"]), o["style"])
        elif k == "near":
            pw = self.pw.get(user)
            if not pw:
                return
            pw = [pw + " ", pw[:-1], pw + "\0", pw.swapcase(), unicodedata.normalize("NFKD", pw), unicodedata.normalize("NFC", pw), pw + pw, pw.encode("utf-8").decode("latin-1")][o["how"]]
            if o["style"] == "login":
                self.expect_login(user, pw)
            else:
                self.expect_basic(user, pw, o["style"])
        elif k == "token":
            if not self.tokens:
                return
            name, gen, t, when = self.tokens[o["w"] % len(self.tokens)]
            got = authstatus(s, hdr(name, t, o["style"])) or None
            age = clock.now() - when
            if self.gen.get(name) != gen and self.gen.get(name) is not None:
                check(got in (None, name), "token of an earlier user: %r" % got)
            elif age < LIFE - 10 and self.gen.get(name) == gen:
                check(got == name, lambda: "valid token of %r (age %d): %r" % (name, age, got))
                self.ctx.label("token")
            elif age > LIFE + 10 or name not in self.gen:
                check(got is None, lambda: "token of %r (age %d, user exists: %s) accepted as %r" % (name, age, name in self.gen, got))
                self.ctx.mark("token-rejected")
        elif k == "advance":
            clock.advance(o["t"])
        elif k == "restart":
            from vt.server import Server
            path = s.path
            s.close()
            self.s = Server(path=path, start=(), extra_plugins=(make_plugin(),), keep=True)
            self.s.own_path = True
            self.s.request = self.wrap(self.s.request)
        elif k == "legacy":
            # a user stored by an old server: salted sha256
            pw = self.pwval(o["pw"])
            if user not in self.gen:
                return
            from devpi_server.auth import newsalt, getpwhash
            salt = newsalt()
            with s.keyfs.write_transaction():
                with s.model.get_user(user).key.update() as d:
                    d["pwsalt"], d["pwhash"] = salt, getpwhash(pw, salt)
            self.pw[user] = pw
            self.ctx.label("legacy")
        elif k == "hash":
            pw = self.pwval(o["pw"])
            hs, by = self.auth(o["by"], user)
            from devpi_server.auth import hash_password
            new = "no hash " + pw[:5] if o["bad"] else hash_password(pw)
            r = s.send_json("PATCH", url, dict(pwhash=new), headers=hs)
            if by in ("root", user) and by is not None and user in self.gen:
                if r.status_code == 200:
                    self.pw[user] = None if o["bad"] else pw
                    if user == "root" and o["bad"]:
                        # keep a way in
                        with s.keyfs.write_transaction():
                            s.model.get_user("root").modify(password="")
                        self.pw["root"] = ""
                else:
                    check(r.status_code == 400, lambda: "setting a hash -> %s" % r)
            else:
                check(r.status_code in (401, 403, 404), lambda: "changing the hash of %s by %s -> %s" % (user, by, r.status_code))
        elif k == "plugin":
            if o["what"] == "index":
                r = s.send_json("PUT", "/dave/dev", dict(bases=[]), headers=hdr("dave", "plugin-S3kret", "x"))
                check(r.status_code in (200, 409), lambda: "index of a plugin user -> %s" % r)
            elif o["what"] == "good":
                r = s.send_json("POST", "/+login", dict(user="dave", password="plugin-S3kret"))
                check(r.status_code == 200, lambda: "login of a plugin user -> %s" % r)
            elif o["what"] == "bad":
                for pw in ("", "x", "None"):
                    r = s.send_json("POST", "/+login", dict(user="dave", password=pw))
                    check(r.status_code == 401, lambda: "login of a plugin user with a wrong password -> %s" % r)
            else:
                check(not authstatus(s, hdr("dave", "", "basic")), "plugin user without a password")
        elif k == "replica":
            how = o["how"]
            if how < 3:
                got = authstatus(s, hdr("+replica", ["", "x", (self.tokens or [("", 0, "t", 0)])[-1][2]][how], "x"))
                check(not got, "authenticated as %r" % got)
            else:
                t = ["", "x", (self.tokens or [("", 0, "t", 0)])[-1][2]][how - 3]
                r = s.request("GET", "/+changelog/0", headers={"Authorization": "Bearer " + t, "X-DEVPI-REPLICA-UUID": "abc", "X-DEVPI-REPLICA-OUTSIDE-URL": ""})
                check(r.status_code in (400, 401, 403, 404), lambda: "changelog -> %s" % r.status_code)
        elif k == "look":
            w = o["w"]
            self.refresh_secrets()
            tok = [x for x in self.tokens if x[0] in self.gen]
            hs = hdr(tok[-1][0], tok[-1][2], "x") if tok and w % 2 else {}
            hs["Accept"] = "application/json"
            for p in ("/", "/root", "/u1", "/u2", "/%C3%BCser", "/+api", "/+status", "/+changelog/0", "/+changelog/%d" % s.serial, "/+changelog/0-", "/u1/", "/nouser", "/dave", "/dave/dev", "/u1/+api"):
                s.request("GET", p, headers=hs)
            s.request("GET", "/+changelog/%d" % s.serial, headers={"X-DEVPI-REPLICA-UUID": "abc"})
            s.request("GET", "/", headers={"Accept": "text/html"})
        if k in ("create", "modify", "legacy", "hash", "login", "loginok"):
            self.refresh_secrets()


def worker_setup():
    clock.install()


def subs():
    return [Sub("tokens", token_cases, run_token, quick=2000, thorough=60000, rule="the credential differs from an issued one"),
            Sub("histories", cases, run, quick=480, thorough=12000, rule="a wrong password or an unusable token was tried", case_timeout=100)]
