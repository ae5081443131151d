"""C21: user and index settings change exactly as requested."""
from vt import boot  # noqa: F401
import copy
import json
import os
import re
import shutil
from urllib.parse import quote
from hypothesis import strategies as st
from vt.core import Sub, check, check_equal
from vt.gen import weighted, op
from vt.server import Server

LEVEL = "exploration"
TECHNIQUE = ("stateful generation of requests creating, modifying (settings or lists of operations) and deleting users and indexes, "
             "compared after every request with a reference model of all settings, and again after a restart")
ASSUMPTIONS = ["the settings of users without a value (empty, 0, null) are not stored",
               "unknown settings of a user may be refused or ignored when an existing user is modified",
               "list operations on an index with a base which doesn't exist anymore may be refused",
               "repeated entries of access and whitelist settings have no meaning"]

USERS = ["u1", "u2", "a.b", "x@y.org", "\u00e91", "-n", "U1"]
BADNAMES = ["a b", "a:b", "a+b", "a%b", "", "a\u00ffb!", ":ANONYMOUS:", "a\x7f~", ".", ".."]
IXS = ["dev", "prod", "m", "a-b", "DEV"]
WLN = ["pkg", "Foo_Bar", "foo.bar", "*", "foo-bar"]
ACLN = ["u1", "u2", ":ANONYMOUS:", ":anonymous:", ":Authenticated:", ":g1", "nobody"]
PWS = ["pw", "p\u00e4ss:w\u00f6rd", "x" * 100, "0"]


def make_plugin():
    import pluggy
    hookimpl = pluggy.HookimplMarker("devpiserver")
    from devpi_server.model import ACLList, ensure_boolean, ensure_list

    class Typed:
        def get_possible_indexconfig_keys(self):
            return ("t_flag", "t_names", "t_free", "t_num")

        def get_default_config_items(self):
            return [("t_flag", True), ("t_num", 3)]

        def normalize_indexconfig_value(self, key, value):
            if key == "t_flag":
                return ensure_boolean(value)
            if key == "t_names":
                return ensure_list(value)
            if key == "t_num":
                if not isinstance(value, int) or isinstance(value, bool):
                    raise self.InvalidIndexconfig(["not a number"])
                return value
            if value is not None:
                return value
            raise self.InvalidIndexconfig(["no value"])

        def validate_config(self, oldconfig, newconfig):
            if newconfig.get("t_num") == 13:
                raise self.InvalidIndexconfig(["unlucky"])

        def on_modified(self, request, oldconfig):
            if self.stage.ixconfig.get("t_num") == 14:
                request.apifatal(400, "unlucky")

    class Plugin:
        @hookimpl
        def devpiserver_get_stage_customizer_classes(self):
            return [("typed", Typed)]

        @hookimpl
        def devpiserver_indexconfig_defaults(self, index_type):
            if index_type == "typed":
                return {"h_on": False, "h_acl": ACLList(["u1"]), "h_list": ["x"], "h_str": "d"}
            return {}
    return Plugin()


BAD = object()


def norm_bool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, str):
        return {"true": True, "yes": True, "false": False, "no": False}.get(v.lower(), BAD)
    return BAD


def norm_list(v):
    if isinstance(v, list):
        return list(v) if all(isinstance(x, str) for x in v) else BAD
    if isinstance(v, str):
        return [x.strip() for x in v.split(",") if x.strip()]
    return BAD


def norm_acl(v):
    v = norm_list(v)
    return v if v is BAD else [x.upper() if x.upper() in (":ANONYMOUS:", ":AUTHENTICATED:") else x for x in v]


def pep503(x):
    return x if x == "*" else re.sub(r"[-_.]+", "-", x).lower()


COMMON = {"custom_data", "description", "title"}
KEYS = {
    "stage": COMMON | {"volatile", "acl_upload", "acl_toxresult_upload", "bases", "mirror_whitelist", "mirror_whitelist_inheritance"},
    "mirror": COMMON | {"volatile", "mirror_cache_expiry", "mirror_no_project_list", "mirror_url", "mirror_use_external_urls", "mirror_web_url_fmt"}}
KEYS["typed"] = KEYS["stage"] | {"t_flag", "t_names", "t_free", "t_num"}
HOOK = {"h_on": False, "h_acl": ["u1"], "h_list": ["x"], "h_str": "d"}
IGNORED = {"bases", "acl_upload", "mirror_whitelist", "pypi_whitelist", "projects"}
DROP = object()


def defaults(user, t):
    d = {"type": t, "volatile": True}
    if t != "mirror":
        d.update(acl_upload=[user], acl_toxresult_upload=[":ANONYMOUS:"], bases=[], mirror_whitelist=[], mirror_whitelist_inheritance="intersection")
    if t == "typed":
        d.update(t_flag=True, t_num=3, **HOOK)
    return d


class Model:
    def __init__(self):
        self.users = {}

    def index(self, u, i):
        return self.users.get(u, {}).get("indexes", {}).get(i)

    def value(self, t, key, v):
        """normalized value or BAD"""
        if v is None and key not in HOOK:
            return BAD
        if key in ("volatile", "mirror_no_project_list", "mirror_use_external_urls", "t_flag", "h_on"):
            return norm_bool(v)
        if key in ("acl_upload", "acl_toxresult_upload", "h_acl"):
            return norm_acl(v)
        if key in ("t_names", "h_list"):
            return norm_list(v)
        if key == "bases":
            v = norm_list(v)
            if v is BAD:
                return v
            for b in v:
                p = b.split("/")
                if len(p) != 2 or not self.index(*p):
                    return BAD
            return v
        if key == "mirror_whitelist":
            v = norm_list(v)
            return v if v is BAD else [pep503(x) for x in v]
        if key == "mirror_whitelist_inheritance":
            return str(v).lower() if str(v).lower() in ("intersection", "union") else BAD
        if key == "mirror_url":
            return v if str(v).startswith(("http://", "https://")) else BAD
        if key == "mirror_cache_expiry":
            try:
                return int(v)
            except (TypeError, ValueError, OverflowError):
                return BAD
        if key == "t_num":
            return v if isinstance(v, int) and not isinstance(v, bool) else BAD
        return v

    def changed(self, user, old, t, kw):
        """new settings, or None if they have to be refused"""
        if "type" in kw and kw["type"] != t:
            return None
        new = copy.deepcopy(old)
        must = {"volatile"} if t == "mirror" else {"volatile", "acl_upload", "acl_toxresult_upload", "bases", "mirror_whitelist", "mirror_whitelist_inheritance"}
        if t == "typed":
            must |= {"t_flag", "t_num"}
        for k, v in kw.items():
            if k == "type":
                continue
            known = k in KEYS[t] or (t == "typed" and k in HOOK)
            if v is DROP:
                if k in must:
                    return None
                if k in HOOK and t == "typed":
                    return None
                new.pop(k, None)
                continue
            if not known:
                if k in IGNORED:
                    continue
                return None
            nv = self.value(t, k, v)
            if nv is BAD:
                return None
            new[k] = nv
        if new.get("t_num") in (13, 14):
            return None
        return new


def dedupe(cfg):
    cfg = dict(cfg)
    for k in ("acl_upload", "acl_toxresult_upload", "mirror_whitelist", "h_acl", "h_list"):
        if isinstance(cfg.get(k), list):
            cfg[k] = list(dict.fromkeys(cfg[k]))
    return cfg


_u = weighted((5, st.integers(0, 1)), (2, st.integers(0, len(USERS) - 1)))
_i = weighted((5, st.integers(0, 1)), (2, st.integers(0, len(IXS) - 1)))
_who = weighted((6, st.just("owner")), (3, st.just("root")), (1, st.just("other")), (1, st.just("anon")))
_json = st.one_of(st.sampled_from(["", "t", "\u00fc\n", {"a": [1, {"b": None}]}, [1, "x"], True, False, 0, 5, 1.5, None, [], {}]),
                  st.recursive(st.none() | st.booleans() | st.integers(-5, 5) | st.text(max_size=4), lambda x: st.lists(x, max_size=2) | st.dictionaries(st.text(max_size=3), x, max_size=2), max_leaves=4))
_base = st.builds(lambda u, i: USERS[u] + "/" + IXS[i], _u, _i)
_badlist = st.sampled_from([5, {"a": 1}, [1], [["x"]], None, True, [None]])
_blist = weighted((6, st.lists(_base, max_size=3)), (2, st.lists(_base, max_size=3).map(",".join)), (1, st.sampled_from([["nope/dev"], ["u1"], ["u1/dev/"], ["/u1/dev"], "u1/dev,", ["u1/nope"], [""]])), (1, _badlist))
_acl = weighted((6, st.lists(st.sampled_from(ACLN), max_size=3)), (2, st.lists(st.sampled_from(ACLN), max_size=3).map(" , ".join)), (1, _badlist))
_wl = weighted((6, st.lists(st.sampled_from(WLN), max_size=3)), (2, st.lists(st.sampled_from(WLN), max_size=3).map(",".join)), (1, _badlist))
_bool = weighted((6, st.booleans()), (3, st.sampled_from(["True", "no", "YES", "false"])), (1, st.sampled_from(["", "maybe", 0, 1, None, []])))
_setting = dict(
    volatile=_bool, bases=_blist, acl_upload=_acl, acl_toxresult_upload=_acl, mirror_whitelist=_wl,
    mirror_whitelist_inheritance=st.sampled_from(["union", "intersection", "UNION", "x", None, 5]),
    title=_json, description=_json, custom_data=_json)
_msetting = dict(
    mirror_url=st.sampled_from(["http://x/simple/", "https://u:p%40@x/y", "http://x/simple/", "ftp://x", "", None, 5, ["http://x"]]),
    mirror_cache_expiry=st.sampled_from([0, 60, "1800", -5, 1.5, True, "x", None, [], "1e3"]),
    mirror_no_project_list=_bool, mirror_use_external_urls=_bool, mirror_web_url_fmt=st.sampled_from(["http://x/{name}", "", None]))
_tsetting = dict(t_flag=_bool, t_names=_acl, t_free=_json, t_num=st.sampled_from([0, 1, 13, 14, "3", None, True]),
                 h_on=_bool, h_acl=_acl, h_list=_acl, h_str=st.sampled_from(["", "s", "d"]))
_odd = st.sampled_from([("unknown", 1), ("pypi_whitelist", ["x"]), ("projects", {"a": 1}), ("_keep_unknown", True), ("_keep_unknown", False),
                        ("user", "u2"), ("index", "x"), ("self", 1), ("ixconfig", {}), ("name", "x"), ("", 1), ("type", "mirror"), ("type", "stage"),
                        ("type", None), ("type", "nope"), ("type", ["stage"]), ("type", {}), ("kw", {})])
ALL = {**_setting, **_msetting, **_tsetting}


@st.composite
def _cfg(draw, kind=None, size=3):
    kind = kind or draw(st.sampled_from(["stage", "stage", "stage", "mirror", "mirror", "typed", "typed", "any"]))
    pool = {"stage": _setting, "mirror": {**_msetting, "volatile": _bool, "title": _json}, "typed": {**_setting, **_tsetting, **_tsetting}, "any": ALL}[kind]
    keys = draw(st.lists(st.sampled_from(sorted(pool)), max_size=size, unique=True))
    d = {k: draw(pool[k]) for k in keys}
    if draw(st.integers(0, 9)) == 0:
        k, v = draw(_odd)
        d[k] = v
    return d


_item = weighted(
    (4, st.builds(lambda s, v: s + v, st.sampled_from(["acl_upload", "acl_toxresult_upload", "acl_upload", "h_acl"]), st.builds(lambda o, v: o + v, st.sampled_from(["+=", "+=", "-=", "="]), st.sampled_from(ACLN)))),
    (4, st.builds(lambda o, v: "mirror_whitelist" + o + v, st.sampled_from(["+=", "+=", "-=", "="]), st.sampled_from(WLN))),
    (4, st.builds(lambda o, v: "bases" + o + v, st.sampled_from(["+=", "+=", "-=", "="]), _base)),
    (2, st.builds(lambda k: k + "-=", st.sampled_from(["title", "description", "custom_data", "volatile", "bases", "acl_upload", "mirror_url", "mirror_cache_expiry",
                                                       "mirror_no_project_list", "t_flag", "t_free", "t_names", "h_on", "h_str", "h_acl", "nope", "type"]))),
    (3, st.sampled_from(["title=x", "title=", "title=a=b+c", "description=\u00fc", "volatile=False", "volatile=yes", "volatile=maybe", "mirror_url=http://y/", "mirror_url=y",
                         "mirror_cache_expiry=5", "mirror_cache_expiry=x", "t_flag=no", "t_free=1", "t_names+=q", "t_names=a,b", "h_on=yes", "h_str=q", "h_list+=y", "h_list-=x",
                         "acl_upload=", "bases=", "bases=u1/dev,u2/dev", "mirror_whitelist_inheritance=union"])),
    (1, st.sampled_from(["nope=1", "nope+=1", "nope-=1", "title+=x", "title-=t", "volatile+=x", "type=mirror", "type=stage", "_keep_unknown=1", "user=x", "", "=", "+=", "-=", "x", 5, None, ["a"]])))
_w = weighted((5, st.integers(0, 20)), (1, st.none()))
_valid = st.sampled_from([True, True, True, False])
_who = weighted((8, st.just("owner")), (4, st.just("root")), (1, st.just("other")), (1, st.just("anon")))
_uset = st.fixed_dictionaries({}, optional=dict(
    email=st.sampled_from(["", "u@x", "\u00fc@x", None]), title=_json, description=_json, custom_data=_json))
_uodd = st.sampled_from([("indexes", {"x": {}}), ("username", "root"), ("created", "x"), ("modified", "x"), ("unknown", 1), ("self", 1), ("name", "x"), ("key", 1), ("", 5)])


@st.composite
def _ucfg(draw):
    d = draw(_uset)
    if draw(st.integers(0, 6)) == 0:
        k, v = draw(_uodd)
        d[k] = v
    return d


_pw = weighted((8, st.integers(0, len(PWS) - 1)), (1, st.sampled_from(["", None, ["x"], {"a": 1}])))


def op_table():
    return weighted(
        (3, op("user", u=_u, pw=_pw, kw=_ucfg())), (3, op("uset", u=_u, who=_who, kw=_ucfg())), (2, op("upw", u=_u, who=_who, pw=_pw, kw=_ucfg())),
        (1, op("udel", u=_u, who=_who)), (1, op("badname", n=st.sampled_from(BADNAMES), user=st.booleans())),
        (3, op("ix", u=_u, i=_i, who=_who, t=st.none(), kw=_cfg("stage"))), (2, op("ix", u=_u, i=_i, who=_who, t=st.just("mirror"), kw=_cfg("mirror"))),
        (2, op("ix", u=_u, i=_i, who=_who, t=st.just("typed"), kw=_cfg("typed"))),
        (1, op("ix", u=_u, i=_i, who=_who, t=st.sampled_from(["stage", "mirror", "nope", 5, None]), kw=_cfg())),
        (10, op("ixset", u=_u, i=_i, w=_w, valid=_valid, who=_who, kw=_cfg("any", 6), wrap=st.sampled_from([False, False, True]))),
        (10, op("ixops", u=_u, i=_i, w=_w, valid=_valid, who=_who, items=st.lists(_item, min_size=1, max_size=8), noop=st.sampled_from([False, False, True]))),
        (2, op("ixdel", u=_u, i=_i, who=_who)), (1, op("ixdel", u=_u, i=_i, w=_w, who=_who)))


def cases():
    return st.fixed_dictionaries(dict(ops=st.lists(op_table(), min_size=10, max_size=40)))


class Driver:
    def __init__(self, s, ctx):
        self.s = s
        self.ctx = ctx
        self.m = Model()
        self.pw = {}
        self.prev = {}

    def who(self, who, u):
        """the acting user, None for nobody"""
        if who == "anon":
            return None
        if who == "root":
            return "root"
        if who == "other":
            for x in USERS:
                if x != u and self.pw.get(x) is not None:
                    return self.auth(x)
            return None
        return self.auth(u) if self.pw.get(u) is not None else "root"

    def auth(self, u):
        if u not in self.s.tokens:
            r = self.s.login(u, self.pw[u])
            check(r.status_code == 200, lambda: "login of %s with password %r -> %s" % (u, self.pw[u], r.status_code), key="login")
        return u

    def settle(self, o, r, outcomes):
        """one of the outcomes (accepted?, state of the model) must have happened"""
        check(r.status_code < 500, lambda: "%r -> %s %s" % (o, r.status_code, r.text[:200]), key="error")
        ok = r.status_code in (200, 201)
        check(ok or 400 <= r.status_code < 500, lambda: "%r -> %s" % (o, r.status_code), key="status")
        states = [m for a, m in outcomes if a == ok]
        check(states, lambda: "%r was %s (%s %s) but should have been %s" % (
            o, "accepted" if ok else "refused", r.status_code, r.text[:200], "refused" if ok else "accepted"), key="verdict")
        now = self.s.get("/").json["result"]
        got = self.clean(now)
        wants = [self.view(m) for m in states]
        check(got in wants, lambda: "after %r (%s) the settings are\n%s\nexpected\n%s" % (o, r.status_code, *show(got, wants[0])), key="settings")
        self.m.users = states[wants.index(got)]
        self.times(o, now, ok)
        self.prev = now
        self.ctx.label(o["op"] + (":ok" if ok else ":refused"))
        return ok

    def clean(self, users):
        users = {u: dict(c) for u, c in users.items() if u != "root"}
        for u, c in users.items():
            c.pop("created", None)
            c.pop("modified", None)
            c["indexes"] = {i: dedupe(x) for i, x in c.get("indexes", {}).items()}
        return users

    def view(self, users):
        users = {u: dict(c, username=u) for u, c in users.items()}
        for u, c in users.items():
            c["indexes"] = {i: dedupe(x) for i, x in c["indexes"].items()}
        return json.loads(json.dumps(users))

    def times(self, o, now, ok):
        """timestamps of users"""
        for u, c in now.items():
            p = self.prev.get(u)
            if p is None:
                if u != "root":
                    check("created" in c, lambda: "after %r %s has no creation time" % (o, u), key="times")
                continue
            if p.get("created"):
                check(p.get("created") == c.get("created") or (o["op"] == "user" and u == USERS[o["u"]]), lambda: "%r changed the creation time of %s from %s to %s" % (o, u, p.get("created"), c.get("created")), key="times")
            a, b = ({k: v for k, v in x.items() if k not in ("created", "modified", "indexes")} for x in (p, c))
            if a != b:
                check(c.get("modified"), lambda: "%r changed %s, but it has no modification time" % (o, u), key="times")
            elif not (o["op"] == "upw" and u == USERS[o["u"]]):
                check_equal(c.get("modified"), p.get("modified"), "modification time of %s after %r" % (u, o), key="times")

    def run(self, o):
        o = dict(o)
        if o.get("w") is not None:
            have = [(u, i) for u, c in sorted(self.users.items()) for i in sorted(c["indexes"])]
            if have:
                u, i = have[o["w"] % len(have)]
                o.update(u=USERS.index(u), i=IXS.index(i))
        if o.get("valid"):
            # leave out what has to be refused
            cur = self.m.index(USERS[o["u"]], IXS[o["i"]])
            if cur is not None and "kw" in o:
                o["kw"] = {k: v for k, v in o["kw"].items() if self.m.changed(USERS[o["u"]], cur, cur["type"], {k: v}) is not None}
            if cur is not None and "items" in o:
                o["items"] = [x for x in o["items"] if self.ops(USERS[o["u"]], cur, [x], False) is not None][:4]
        return getattr(self, "do_" + o["op"])(o)

    @property
    def users(self):
        return self.m.users

    def refused(self):
        return (False, self.users)

    def usettings(self, old, kw):
        new = copy.deepcopy(old)
        for k in ("email", "title", "description", "custom_data"):
            if k in kw:
                if kw[k]:
                    new[k] = kw[k]
                else:
                    new.pop(k, None)
        return new

    def do_user(self, o):
        u = USERS[o["u"]]
        kw = dict(o["kw"], password=PWS[o["pw"]] if isinstance(o["pw"], int) else o["pw"])
        r = self.s.send_json("PUT", "/" + quote(u), kw)
        bad = u in self.users or set(kw) - {"password", "email", "title", "description", "custom_data", "indexes", "created", "modified"} \
            or not isinstance(kw["password"], (str, type(None)))
        new = copy.deepcopy(self.users)
        new[u] = dict(self.usettings({}, kw), indexes={})
        out = [self.refused()] if bad else [(True, new)]
        if set(kw) & {"indexes", "created", "modified"}:
            out.append(self.refused())
        if not kw["password"]:
            out.append(self.refused())
        if self.settle(o, r, out):
            self.setpw(u, kw["password"])
            got = r.json["result"]
            check_equal({k: v for k, v in got.items() if k not in ("created", "modified")}, json.loads(json.dumps(dict(new[u], username=u))), "result of %r" % (o,), key="result")

    def setpw(self, u, pw):
        self.s.tokens.pop(u, None)
        old = self.pw.get(u)
        self.pw[u] = pw
        if pw is not None:
            self.auth(u)
        if old is not None and old != pw:
            r = self.s.login(u, old)
            check(r.status_code == 401, lambda: "the previous password of %s is still accepted (%s)" % (u, r.status_code), key="login")
            if pw is not None:
                self.auth(u)
        self.others(u)

    def others(self, u):
        for x in USERS:
            if x != u and self.pw.get(x) is not None and x in self.s.tokens:
                r = self.s.login(x, self.pw[x])
                check(r.status_code == 200, lambda: "setting the password of %s: login of %s -> %s" % (u, x, r.status_code), key="login")
                break

    def do_uset(self, o):
        u = USERS[o["u"]]
        who = self.who(o["who"], u)
        kw = o["kw"]
        r = self.s.send_json("PATCH", "/" + quote(u), kw, user=who)
        self.umod(o, u, who, kw, r)

    def umod(self, o, u, who, kw, r):
        allowed = u in self.users and who in (u, "root")
        odd = set(kw) - {"password", "email", "title", "description", "custom_data"}
        bad = "self" in kw or not isinstance(kw.get("password"), (str, type(None)))
        if not allowed or bad:
            return self.settle(o, r, [self.refused()])
        new = copy.deepcopy(self.users)
        new[u] = self.usettings(self.users[u], kw)
        out = [(True, new)]
        if odd or kw.get("password") == "":
            out.append(self.refused())
        return self.settle(o, r, out)

    def do_upw(self, o):
        u = USERS[o["u"]]
        who = self.who(o["who"], u)
        pw = PWS[o["pw"]] if isinstance(o["pw"], int) else o["pw"]
        kw = dict(o["kw"], password=pw)
        r = self.s.send_json("PATCH", "/" + quote(u), kw, user=who)
        if self.umod(o, u, who, kw, r):
            if pw is not None:
                self.setpw(u, pw)
        elif u in self.users and self.pw.get(u) is not None:
            q = self.s.login(u, self.pw[u])
            check(q.status_code == 200, lambda: "after the refused %r the login of %s -> %s" % (o, u, q.status_code), key="login")

    def do_udel(self, o):
        u = USERS[o["u"]]
        who = self.who(o["who"], u)
        r = self.s.delete("/" + quote(u), user=who)
        if u not in self.users or who not in (u, "root") or not all(x["volatile"] for x in self.users[u]["indexes"].values()):
            return self.settle(o, r, [self.refused()])
        new = copy.deepcopy(self.users)
        del new[u]
        if self.settle(o, r, [(True, new)]):
            self.pw.pop(u, None)
            self.s.tokens.pop(u, None)
            check_equal(self.s.get("/" + quote(u)).status_code, 404, "deleted user %s" % u, key="deleted")

    def do_badname(self, o):
        if o["user"]:
            r = self.s.send_json("PUT", "/" + quote(o["n"]), {"password": "x"})
        else:
            r = self.s.send_json("PUT", "/root/" + quote(o["n"]), {}, user="root")
        if o["n"] == "" and o["user"]:
            check(r.status_code in (404, 405), "PUT / -> %s" % r.status_code)
        self.settle(o, r, [self.refused()])
        check_equal(self.s.get("/root").json["result"].get("indexes"), {}, "indexes of root after %r" % (o,), key="settings")

    def do_ix(self, o):
        u, i = USERS[o["u"]], IXS[o["i"]]
        who = self.who(o["who"], u)
        kw = dict(o["kw"])
        if o["t"] is not None:
            kw["type"] = o["t"]
        r = self.s.send_json("PUT", "/%s/%s" % (quote(u), quote(i)), kw, user=who)
        t = kw.get("type", "stage")
        bad = u not in self.users or self.m.index(u, i) is not None or who not in (u, "root") or set(kw) & {"_keep_unknown", "user", "index", "self"} \
            or not isinstance(t, str) or t not in KEYS
        new = None if bad else self.m.changed(u, defaults(u, t), t, kw)
        if new is None:
            return self.settle(o, r, [self.refused()])
        m = copy.deepcopy(self.users)
        m[u]["indexes"][i] = new
        if self.settle(o, r, [(True, m)]):
            self.result(o, u, i, r, new)

    def result(self, o, u, i, r, new):
        new = json.loads(json.dumps(new))
        check_equal(dedupe(r.json["result"]), dedupe(new), "result of %r" % (o,), key="result")
        q = self.s.get("/%s/%s?no_projects=" % (quote(u), quote(i)))
        check_equal(dedupe({k: v for k, v in q.json["result"].items() if k != "projects"}), dedupe(new), "%s/%s after %r" % (u, i, o), key="result")

    def modify(self, o, r, u, i, who, outs):
        cur = self.m.index(u, i)
        if cur is None or who not in (u, "root"):
            return self.settle(o, r, [self.refused()])
        out = []
        for n in outs:
            if n is None:
                out.append(self.refused())
            else:
                m = copy.deepcopy(self.users)
                m[u]["indexes"][i] = n
                out.append((True, m))
        if self.settle(o, r, out):
            if self.m.index(u, i) != cur:
                self.ctx.label("changed")
            self.changes = getattr(self, "changes", 0) + (self.m.index(u, i) != cur)
            self.result(o, u, i, r, self.m.index(u, i))

    def do_ixset(self, o):
        u, i = USERS[o["u"]], IXS[o["i"]]
        who = self.who(o["who"], u)
        kw = dict(o["kw"])
        if not o["wrap"] and kw.get("type") == "indexconfig" and "result" in kw:
            return
        body = dict(type="indexconfig", result=kw) if o["wrap"] else kw
        r = self.s.send_json("PATCH", "/%s/%s" % (quote(u), quote(i)), body, user=who)
        cur = self.m.index(u, i)
        if cur is None:
            return self.modify(o, r, u, i, who, [])
        if set(kw) & {"_keep_unknown", "self"}:
            outs = [None]
        elif "index" in kw:
            kw.pop("index")
            outs = [None, self.m.changed(u, cur, cur["type"], kw)]
        else:
            outs = [self.m.changed(u, cur, cur["type"], kw)]
        self.modify(o, r, u, i, who, outs)

    def do_ixops(self, o):
        u, i = USERS[o["u"]], IXS[o["i"]]
        who = self.who(o["who"], u)
        r = self.s.send_json("PATCH", "/%s/%s%s" % (quote(u), quote(i), "?error_on_noop" if o["noop"] else ""), o["items"], user=who)
        cur = self.m.index(u, i)
        if cur is None:
            return self.modify(o, r, u, i, who, [])
        outs = [self.ops(u, cur, o["items"], norm) for norm in (True, False)]
        if o["noop"]:
            for n in list(outs):
                if n is not None and dedupe(n) == dedupe(cur):
                    outs.append(None)     # refused as without effect, but only if it's the same before normalizing
            if outs[1] is not None and self.raw == cur:
                outs = [None]
        if any(self.m.value("stage", "bases", [b]) is BAD for b in cur.get("bases", ())):
            outs.append(None)
        self.modify(o, r, u, i, who, outs)

    def ops(self, u, cur, items, norm):
        """norm: operations work on normalized values"""
        raw = copy.deepcopy(cur)
        t = cur["type"]

        def n(k, v):
            if not norm:
                return v
            x = self.m.value(t, k, [v])
            return v if x is BAD or len(x) != 1 else x[0]
        for it in items:
            if not isinstance(it, str):
                return None
            k, _, v = it.partition("=")
            if k.endswith("+"):
                k = k[:-1]
                if not isinstance(raw.get(k), list):
                    return None
                if n(k, v) not in [n(k, x) for x in raw[k]]:
                    raw[k].append(v)
            elif k.endswith("-"):
                k = k[:-1]
                if v == "":
                    raw[k] = DROP
                    continue
                if not isinstance(raw.get(k), list) or n(k, v) not in [n(k, x) for x in raw[k]]:
                    return None
                raw[k] = [x for x in raw[k] if n(k, x) != n(k, v)]
            else:
                raw[k] = v
        self.raw = raw
        if set(raw) & {"_keep_unknown", "self"}:
            return None
        return self.m.changed(u, cur, t, raw)

    def do_ixdel(self, o):
        u, i = USERS[o["u"]], IXS[o["i"]]
        who = self.who(o["who"], u)
        r = self.s.delete("/%s/%s" % (quote(u), quote(i)), user=who)
        cur = self.m.index(u, i)
        if cur is None or who not in (u, "root") or not cur["volatile"]:
            return self.settle(o, r, [self.refused()])
        new = copy.deepcopy(self.users)
        del new[u]["indexes"][i]
        if self.settle(o, r, [(True, new)]):
            check_equal(self.s.get("/%s/%s" % (quote(u), quote(i))).status_code, 404, "deleted index %s/%s" % (u, i), key="deleted")


def show(a, b):
    """only the differing parts"""
    from vt import observe
    d = observe.diff(a, b)
    return (d, "(see above: got, expected)")


def run(case, ctx):
    s = Server(start=(), extra_plugins=(make_plugin(),), keep=True)
    path = s.path
    try:
        s.login("root", "")
        d = Driver(s, ctx)
        d.changes = 0
        d.prev = s.get("/").json["result"]
        for u in USERS[:2]:
            d.run(dict(op="user", u=USERS.index(u), pw=0, kw={}))
        d.run(dict(op="ix", u=0, i=0, who="owner", t=None, kw={}))
        for o in case["ops"]:
            d.run(o)
        if d.changes >= 2:
            ctx.mark()
        before = s.get("/").json["result"]
        s.close()
        s = Server(path=path, start=(), extra_plugins=(make_plugin(),), keep=True)
        d.s = s
        check_equal(s.get("/").json["result"], before, "settings after a restart", key="restart")
        for u, pw in d.pw.items():
            if pw is not None:
                d.auth(u)
    finally:
        s.close()
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)


def subs():
    return [Sub("settings", cases, run, quick=500, thorough=20000, rule="at least two requests changed the settings of an index", case_timeout=120)]
