"""C22: rejected requests leave no trace and bad input is never a server error."""
from vt import boot  # noqa: F401
import base64
import json
import os
import re
import shutil
import tempfile
import zipfile
import io
from urllib.parse import quote, urlsplit
from hypothesis import strategies as st
from vt.core import Sub, check, REPO, Violation
from vt.gen import weighted
from vt import observe

LEVEL = "exploration"
TECHNIQUE = "structure-aware fuzzing of requests over every route against a populated server, with the oracle: no internal server error, and a client error commits nothing and changes no file"
ASSUMPTIONS = ["502 answers for unreachable upstreams and push targets are no internal errors",
               "requests are well formed HTTP: the web server in front of the application has already rejected others; X-Outside-URL is a valid URL, as the proxy in front sets it"]
UNPRIVILEGED = True

LONG = "L" * 300
CLOSED = "http://127.0.0.1:1/"

# -- values

_ugly = st.sampled_from([
    "", " ", ".", "..", "...", "a/b", "../x", "/", "//", "\\", "\0", "a\0b", "\n", "\r\n", "\t", "%", "%2F", "%00", "#", "?", "a#b", "a?b", "&", ";", ":", "*", "~", "+", "+f", "+e", "+simple", "+api",
    "-", "_", "@", "'", "\"", "<b>", "{}", "[]", "None", "null", "true", "0", "-1", "1e999", "\u00e9", "\u0130", "\u2028", "\U0001f600", "\ufeff", LONG, "LONGPKG-1.0.tar.gz", "a" * 255, "p" * 5000,
    "system.Everyone", "root", "u1", "u2", "u1/dev", "u1/nv", "u1/m", "u1/nope", "u1/dev/x", "root/pypi", "u1/", "/dev", ",", "u1/dev,u1/m", "u1/dev,u1/dev", "pkg", "Pkg", "p.k-g", "1.0", "1.0.0", "==1.0", "1.0-1", "v1.0", "latest", "stable",
    "pkg-1.0.tar.gz", "pkg-1.0.zip", "pkg-1.0-py3-none-any.whl", "pkg-2.0.tar.gz", "pkg-1.0.doc.zip", "pkg-1.0.tar.gz.asc", "pkg-.tar.gz", "pkg.tar.gz", "-1.0.tar.gz", "../pkg-1.0.tar.gz", "a/pkg-1.0.tar.gz", "pkg-1.0.tar.gz\0", "pkg-../../x-1.0.tar.gz", "pkg-1.0/../../x.zip", "pkg-1.0%2f.tar.gz", "pkg-1.0-%s.zip" % LONG,
    CLOSED, "http://", "http://[::1", "http://a:b:c/", "ftp://x", "file:///etc/passwd", "http://\u00e9/", "x", "mirror", "stage", "http://127.0.0.1:99999/", "UNKNOWN", "2021-01-01", "sha256=abc", "md5=x", "="])
_surr = st.sampled_from(["\ud800", "a\udcffb"])
_text = weighted((8, _ugly), (1, st.text(max_size=8)), (1, _surr))
_scalar = weighted((5, _text), (3, st.sampled_from([None, True, False, 0, 1, -1, 5, 10**30, 1.5, float("nan"), float("inf"), -2**31, 2**63])))
_json = weighted((6, _scalar), (2, st.lists(_scalar, max_size=3)), (1, st.dictionaries(_text, _scalar, max_size=3)), (1, st.lists(st.lists(_scalar, max_size=2), max_size=2)), (1, st.just([[[{}]]])))


def obj(*keys):
    """a JSON object with some of the known keys and odd values, or something else"""
    return weighted((10, st.dictionaries(weighted((12, st.sampled_from(list(keys))), (1, _text)), _json, max_size=4)), (2, _json))


_actions = st.lists(weighted((8, st.builds(
    lambda k, o, v: k + o + v, st.sampled_from(["bases", "acl_upload", "acl_toxresult_upload", "volatile", "type", "title", "custom_data", "mirror_whitelist", "mirror_whitelist_inheritance", "mirror_url", "mirror_cache_expiry", "mirror_no_project_list", "pypi_whitelist", "nokey", "", "projects", "description"]),
    st.sampled_from(["=", "+=", "-=", "-", "+", ""]), _text)), (1, _json)), max_size=3)
_cfg = ["type", "bases", "volatile", "acl_upload", "acl_toxresult_upload", "title", "description", "custom_data", "mirror_url", "mirror_whitelist", "mirror_whitelist_inheritance", "mirror_cache_expiry", "mirror_web_url_fmt", "mirror_no_project_list", "mirror_use_external_urls", "mirror_provides_core_metadata", "pypi_whitelist", "result", "index", "projects", "user"]
_user = ["password", "email", "title", "description", "custom_data", "pwhash", "pwsalt", "indexes", "username", "created", "modified"]


# -- requests

_seg = weighted((6, _ugly), (1, st.text(max_size=6)))
_u = weighted((6, st.sampled_from(["u1", "u2", "root"])), (2, st.sampled_from(["new1", "new2", "nobody"])), (2, _seg))
_i = weighted((8, st.sampled_from(["dev", "nv", "m", "inh", "dev", "dev"])), (1, st.sampled_from(["newi"])), (2, _seg))
_p = weighted((6, st.just("pkg")), (1, st.sampled_from(["Pkg", "newp", "other.proj"])), (2, _seg))
_v = weighted((6, st.just("1.0")), (1, st.sampled_from(["2.0", "latest", "stable"])), (2, _seg))
_rel = weighted((5, st.sampled_from(["FILE", "FILE", "WHEEL", "DOC", "TOX"])), (2, st.lists(_seg, min_size=1, max_size=4).map("/".join)), (1, st.just("FILE#x")), (1, st.just("FILE.metadata")))


def tmpl(*parts):
    return st.tuples(*[st.just(x) if isinstance(x, str) else x for x in parts]).map(list)


_n = st.sampled_from(["0", "1", "5", "99999999999999999999", "007", "\u0665"])
PATHS = weighted(
    (1, tmpl("/")), (1, tmpl("/+api")), (2, tmpl("/+login")), (1, tmpl("/+status")), (1, tmpl("/+authcheck")),
    (1, tmpl("/+changelog/", _n)), (1, tmpl("/+changelog/", _n, "-")),
    (4, tmpl("/", _u)), (1, tmpl("/", _u, "/")), (1, tmpl("/", _u, "/+api")),
    (6, tmpl("/", _u, "/", _i)), (5, tmpl("/", _u, "/", _i, "/")), (1, tmpl("/", _u, "/", _i, "/+api")),
    (1, tmpl("/", _u, "/", _i, "/+simple")), (1, tmpl("/", _u, "/", _i, "/+simple/")), (1, tmpl("/", _u, "/", _i, "/+simple/", _p)), (2, tmpl("/", _u, "/", _i, "/+simple/", _p, "/")), (1, tmpl("/", _u, "/", _i, "/+simple/", _p, "/refresh")),
    (3, tmpl("/", _u, "/", _i, "/", _p)), (1, tmpl("/", _u, "/", _i, "/", _p, "/")), (3, tmpl("/", _u, "/", _i, "/", _p, "/", _v)), (1, tmpl("/", _u, "/", _i, "/", _p, "/", _v, "/")),
    (4, tmpl("/", _u, "/", _i, "/+f/", _rel)), (1, tmpl("/", _u, "/", _i, "/+e/", _rel)),
    (1, tmpl("RAW", st.lists(weighted((3, st.sampled_from(["/", "%", "%ff", "%00", "%2f", "..", "+", "//", "%0d%0a", "%c3%28", "u1", "dev", "+f", ";a=b"])), (1, st.sampled_from(["a", "%e9", "~"]))), min_size=1, max_size=6).map("".join))))

_query = weighted((8, st.just("")), (1, st.sampled_from(["force", "error_on_noop", "no_projects=", "no_projects=1", "ignore_bases", "ignore_bases=1", "a=%ff", "%", "&&=", "verbose=1", "force=%00", ":action=submit", "page=x", "query=x&page=-1"])))
_method = weighted((4, st.sampled_from(["GET", "POST", "PUT", "PATCH", "DELETE"])), (1, st.sampled_from(["HEAD", "PUSH", "OPTIONS", "TRACE", "FOO"])))
_headers = st.dictionaries(st.sampled_from(["Accept", "Content-Type", "X-Original-URI", "X-Outside-URL", "X-Devpi-Absolute-URLs", "X-Devpi-Auth", "Authorization", "If-None-Match", "If-Modified-Since", "Range", "Host", "X-Forwarded-Host", "X-Forwarded-Proto", "X-DEVPI-REPLICA-UUID", "X-DEVPI-REPLICA-OUTSIDE-URL", "X-DEVPI-EXPECTED-PRIMARY-ID", "X-DEVPI-REPLICA-FILESTREAMING", "X-PYPI-LAST-SERIAL", "Cookie", "Content-Encoding", "User-Agent", "X-HTTP-Method-Override", "Accept-Language", "Accept-Charset"]),
                           weighted((3, st.sampled_from([
                               "", "*/*", "text/html", "application/json", "application/vnd.pypi.simple.v1+json", "application/vnd.pypi.simple.latest+json;q=x", "text/html;q=0", "garbage", "a/b/c", ";", "application/json; charset=nope", "application/json; charset=utf-16", "multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"x", "application/x-www-form-urlencoded; charset=latin-1", "text/plain", "http://localhost/u1/dev", "http://[", "/u1/dev/pkg", "//", "http://x:y/", "Bearer x", "Bearer ", "Basic", "Basic ", "Basic x", "Basic " + base64.b64encode(b"u1").decode(), "Basic " + base64.b64encode(b"\xff\xfe:x").decode(), base64.b64encode(b"u1:pw").decode(), base64.b64encode(b"u1:\xff").decode(), base64.b64encode(b"+replica:x").decode(), "Digest x", "bytes=0-5", "bytes=x", "bytes=-99999", "a=b; c", "\xff", "pip/9", "setuptools/1", "uv/0.1", "devpi-client/1", "W/\"x\"", "Sun, 06 Nov 1994 08:49:37 GMT", "yesterday", "localhost:x", "a b", "gzip", "0", "xyz"])), (1, st.just("")) ), max_size=3)

_formval = weighted((6, _ugly), (1, st.text(st.characters(blacklist_categories=("Cs",)), max_size=8)))
_field = weighted((10, st.tuples(st.sampled_from([":action", "name", "version", "filetype", "pyversion", "metadata_version", "summary", "classifiers", "requires_python", "md5_digest", "sha256_digest", "content", "gpg_signature", "description", "provides_extras", "protocol_version", "platform", "project_urls"]), _formval)), (1, st.tuples(_formval, _formval)))
_filename = weighted((4, st.sampled_from(["pkg-1.0.tar.gz", "pkg-2.0.tar.gz", "pkg-1.0.zip", "pkg-1.0.doc.zip"])), (4, _formval))
_file = weighted((6, st.tuples(weighted((8, st.just("content")), (1, st.sampled_from(["name", "version", ":action", "gpg_signature", "other"]))), _filename, st.sampled_from(["", "abc", "ZIP", "BADZIP"]))), (1, st.none()))
_good = st.sampled_from([[(":action", "file_upload"), ("name", "pkg"), ("version", "1.0")], [(":action", "file_upload"), ("name", "pkg"), ("version", "2.0")], [(":action", "file_upload"), ("name", "newp"), ("version", "1.0")], [(":action", "doc_upload"), ("name", "pkg"), ("version", "1.0")], [(":action", "submit"), ("name", "pkg"), ("version", "1.0")], [(":action", "file_upload"), ("name", "pkg")], [(":action", "submit"), ("name", "newp")], [(":action", "doc_upload"), ("name", "pkg")]])
_form = weighted((1, st.lists(_field, max_size=5)), (2, st.tuples(_good, st.lists(_field, max_size=2)).map(lambda x: [list(y) for y in x[0]] + [list(y) for y in x[1]])))
_replace = st.tuples(_good, _field).map(lambda x: [list(y) for y in x[0] if y[0] != x[1][0]] + [list(x[1])])

_push = st.fixed_dictionaries(dict(name=st.just("pkg"), version=st.just("1.0")), optional=dict(
    targetindex=weighted((3, st.sampled_from(["u1/nv", "u1/dev", "u1/m", "u1/inh", "u2/nope", "x"])), (1, _json)), posturl=weighted((3, st.just(CLOSED)), (2, _json)), username=_json, password=_json, register_project=_json, no_docs=_json, only_docs=_json))
_body = weighted(
    (3, st.builds(lambda j: dict(t="json", j=j), obj(*_cfg))),
    (2, st.builds(lambda j: dict(t="json", j=j), obj(*_user))),
    (2, st.builds(lambda j: dict(t="json", j=j), _actions)),
    (2, st.builds(lambda j: dict(t="json", j=j), obj("name", "version", "targetindex", "posturl", "username", "password", "register_project", "no_docs", "only_docs"))),
    (2, st.builds(lambda j: dict(t="json", j=j), _push)),
    (2, st.builds(lambda j: dict(t="json", j=j), st.fixed_dictionaries(dict(user=_json, password=_json)))),
    (2, st.builds(lambda f, x: dict(t="form", f=f, file=x), weighted((1, _form), (1, _replace)), _file)),
    (1, st.builds(lambda f: dict(t="urlencoded", f=f), _form)),
    (1, st.builds(lambda b: dict(t="raw", b=b), st.sampled_from(["", "{", "[1,", "\xff\xfe", "NaN", "\"x", "{\"a\":1}{", "--x\r\n\r\n", "a=b&c=%ff", "[" * 2000, "9" * 5000]))))


def request():
    return st.fixed_dictionaries(dict(m=_method, path=PATHS, q=_query, h=weighted((2, st.just({})), (1, _headers)), body=weighted((3, _body), (1, st.none())), user=weighted((6, st.just("u1")), (3, st.just("root")), (1, st.sampled_from([None, "u2"])))))


# requests which are likely to get far: right method, body and path together

def focused():
    def r(m, path, body, q=_query, user=weighted((5, st.just("u1")), (2, st.just("root")))):
        return st.fixed_dictionaries(dict(m=st.just(m) if isinstance(m, str) else m, path=path, q=q, h=weighted((5, st.just({})), (1, _headers)), body=body, user=user))

    def j(s_):
        return st.builds(lambda x: dict(t="json", j=x), s_)
    form = st.builds(lambda f, x: dict(t="form", f=f, file=x), weighted((1, _form), (2, _replace)), _file)
    ix = tmpl("/", weighted((6, st.just("u1")), (1, _u)), "/", _i)
    ix_ = tmpl("/", weighted((6, st.just("u1")), (1, _u)), "/", weighted((4, st.sampled_from(["dev", "nv", "inh"])), (1, _i)), "/")
    none = st.none()
    return weighted(
        (3, r("PUT", ix, j(obj(*_cfg)))), (2, r("PUT", tmpl("/u1/", st.sampled_from(["n1", "n2"])), j(obj(*_cfg)))),
        (3, r("PATCH", ix, j(obj(*_cfg)))), (4, r("PATCH", tmpl("/u1/", st.sampled_from(["dev", "nv", "m", "inh"])), j(_actions))),
        (3, r("PUT", tmpl("/", _u), j(obj(*_user)))), (3, r("PATCH", tmpl("/", weighted((6, st.just("u1")), (1, _u))), j(obj(*_user)))),
        (4, r("POST", ix_, form)), (3, r(st.sampled_from(["POST", "PUSH"]), ix, j(_push))),
        (2, r("POST", tmpl("/+login"), j(st.fixed_dictionaries(dict(user=_json, password=_json))))),
        (2, r("POST", tmpl("/u1/", st.sampled_from(["dev", "nv", "inh", "m"]), "/+f/", _rel), j(_json))),
        (2, r("DELETE", tmpl("/u1/", _i, "/+f/", _rel), none)), (2, r("DELETE", tmpl("/u1/", _i, "/", _p, "/", _v), none)), (1, r("DELETE", tmpl("/u1/", _i, "/", _p), none)),
        (1, r("DELETE", ix, none)), (1, r("DELETE", tmpl("/", _u), none)),
        (4, r(st.sampled_from(["GET", "HEAD"]), PATHS, none)))


def cases():
    return st.fixed_dictionaries(dict(rs=st.lists(weighted((3, focused()), (2, request())), min_size=4, max_size=12)))


_state = []


def zipped(bad=False):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("index.html", "<html></html>")
        if bad:
            z.writestr("../../evil.html", "x")
    return b.getvalue()


def template():
    """a server directory with some content, and login tokens for it"""
    if not _state:
        from vt.server import Server
        s = Server(start=(), keep=True)
        tokens = {}
        s.login("root", "")
        for u in ("u1", "u2"):
            s.create_user(u)
        s.create_index("u1/dev", bases=[], volatile=True)
        s.create_index("u1/nv", bases=[], volatile=False)
        s.create_index("u1/m", type="mirror", mirror_url=CLOSED, bases=[])
        s.create_index("u1/inh", bases=["u1/dev"])
        for ix in ("u1/dev", "u1/nv"):
            check(s.upload(ix, "pkg", "1.0", "pkg-1.0.tar.gz", b"content", user="u1").status_code == 200, "setup")
            check(s.upload(ix, "pkg", "1.0", "pkg-1.0-py3-none-any.whl", zipped(), user="u1").status_code == 200, "setup")
            check(s.upload(ix, "pkg", "1.0", "pkg-1.0.doc.zip", zipped(), user="u1", action="doc_upload").status_code == 200, "setup")
        d = s.get("/u1/dev/pkg/1.0").json["result"]
        rel = {}
        for link in d["+links"]:
            p = urlsplit(link["href"]).path
            rel["DOC" if link["rel"] == "doczip" else "WHEEL" if p.endswith(".whl") else "FILE"] = p.split("/+f/")[1]
        r = s.request("POST", "/u1/dev/+f/" + rel["FILE"], b'{"testenvs": {}}', user="u1")
        check(r.status_code == 200, "setup")
        for link in s.get("/u1/dev/pkg/1.0").json["result"]["+links"]:
            if link["rel"] == "toxresult":
                rel["TOX"] = urlsplit(link["href"]).path.split("/+f/")[1]
        tokens = dict(s.tokens)
        path = s.path
        s.close()
        _state.append((path, tokens, rel))
    return _state[0]


def build(req, rel):
    parts = req["path"]
    if parts[0] == "RAW":
        path = "/" + parts[1]
    else:
        out = []
        for i, x in enumerate(parts):
            if i % 2 == 0:
                out.append(x)      # part of the template
                continue
            for k, v in rel.items():
                if "/+toxresults/" in parts[i - 1:i] or (i > 1 and "/+toxresults/" in parts):
                    v = v.rsplit("/", 1)[1]
                if x.startswith(k):
                    x = v + x[len(k):]
            out.append(quote(x, safe="/" if parts[i - 1] in ("/+f/", "/+e/", "/+d/", "/+doc/") else "", errors="surrogatepass"))
        path = "".join(out)
    if req["q"]:
        path += "?" + req["q"]
    headers = {"Accept": "application/json"}
    body = b""
    b = req["body"]
    if b is not None:
        if b["t"] == "json":
            body = json.dumps(b["j"]).encode()
            headers["Content-Type"] = "application/json"
        elif b["t"] == "xml":
            body = b["b"].encode()
            headers["Content-Type"] = "text/xml"
        elif b["t"] == "raw":
            body = b["b"].encode("latin-1")
            headers["Content-Type"] = "application/json"
        elif b["t"] == "urlencoded":
            body = "&".join("%s=%s" % (quote(k, errors="surrogatepass"), quote(v, errors="surrogatepass")) for k, v in b["f"]).encode()
            headers["Content-Type"] = "application/x-www-form-urlencoded"
        else:
            bd = b"xxVERIFxx"
            o = []
            for k, v in b["f"]:
                o.append(b"--" + bd + b"\r\nContent-Disposition: form-data; name=\"" + k.replace("\n", " ").replace("\r", " ").encode("utf-8", "surrogatepass") + b"\"\r\n\r\n" + v.encode("utf-8", "surrogatepass") + b"\r\n")
            if b["file"] is not None:
                k, fn, c = b["file"]
                c = {"ZIP": zipped(), "BADZIP": zipped(True)}.get(c, c.encode())
                o.append(b"--" + bd + b"\r\nContent-Disposition: form-data; name=\"" + k.encode() + b"\"; filename=\"" + fn.replace("\n", " ").replace("\r", " ").replace("\"", "%22").encode("utf-8", "surrogatepass") + b"\"\r\nContent-Type: application/octet-stream\r\n\r\n" + c + b"\r\n")
            o.append(b"--" + bd + b"--\r\n")
            body = b"".join(o)
            headers["Content-Type"] = "multipart/form-data; boundary=" + bd.decode()
    headers.update(req["h"])
    if "[" in headers.get("X-Outside-URL", ""):
        del headers["X-Outside-URL"]
    return path, headers, body


def where(r):
    """exception type and place in the repository of an internal error"""
    text = r.text
    m = re.findall(r'File "%s/([^"]+)", line \d+, in (\S+)' % re.escape(REPO), text)
    m = [x for x in m if "test_" not in x[0]]
    last = text.strip().splitlines()[-1] if text.strip() else ""
    exc = type(r.exc).__name__ if r.exc is not None else "response"
    fn = "?"
    for f, name in reversed(m):
        if name.startswith("tween") or name in ("__call__", "handler"):
            continue
        fn = "%s:%s" % (os.path.basename(f), name)
        break
    return "500:%s@%s" % (exc, fn), last


class Host:
    """runs requests against a copy of the populated directory"""

    def __init__(self, web=False, whoosh=False):
        from vt.server import Server
        path, self.tokens, self.rel = template()
        base = tempfile.mkdtemp(prefix="c22")
        d = os.path.join(base, "s")
        shutil.copytree(path, d)
        self.base = base
        self.s = Server(path=d, start=(), web=web, keep=True, opts=["--indexer-backend", "whoosh"] if whoosh else [])
        self.s.tokens = dict(self.tokens)

    def close(self):
        self.s.close()
        shutil.rmtree(self.base, ignore_errors=True)

    def state(self):
        return self.s.serial, observe.disk_files(self.s.path + "/+files")

    def run(self, req, ctx, accept=None):
        s = self.s
        path, headers, body = build(req, self.rel)
        if accept:
            headers["Accept"] = accept
        if req["user"] is None:
            pass
        elif "X-Devpi-Auth" not in headers and "Authorization" not in headers:
            headers["X-Devpi-Auth"] = s.authval(req["user"], self.tokens[req["user"]])
        serial, disk = self.state()
        r = s.request(req["m"], path, body, headers=headers)
        what = "%s %s %s %r (as %s)" % (req["m"], path[:300], {k: v for k, v in headers.items() if k != "X-Devpi-Auth"}, body[:300], req["user"])
        if r.status_code == 500:
            key, last = where(r)
            if ctx.is_known(key):
                return r
            if os.environ.get("VERIF_COLLECT"):
                with open(os.environ["VERIF_COLLECT"], "a") as f:
                    f.write("%s | %s | %s\n" % (key, last[:150], what[:300]))
                return r
            raise Violation("internal server error %s: %s\n%s" % (key, what, last[:300]), key=key)
        if r.status_code >= 400:
            ctx.label("rejected")
            s2, d2 = self.state()
            if serial != s2 or disk != d2:
                with s.keyfs.get_connection() as conn:
                    keys = sorted(k for n in range(serial + 1, s2 + 1) for k in conn.get_changes(n))
                raise Violation("%s -> %s %s, but it changed %s %s" % (what, r.status_code, r.text[:200], keys, observe.diff(disk, d2)), key="trace")
        elif req["m"] not in ("GET", "HEAD"):
            ctx.label("accepted")
        return r


def run(case, ctx):
    h = Host()
    try:
        rejected = 0
        for req in case["rs"]:
            r = h.run(req, ctx)
            rejected += r.status_code in (400, 404, 405, 409, 403, 401)
        if rejected >= 2:
            ctx.mark()
    finally:
        h.close()


# -- the pages of devpi-web

_env = st.one_of(st.just({}), _json, st.fixed_dictionaries({}, optional=dict(
    setup=weighted((2, st.lists(st.fixed_dictionaries({}, optional=dict(retcode=_json, output=_json, command=_json)), max_size=2)), (1, _json)),
    test=weighted((2, st.lists(st.fixed_dictionaries({}, optional=dict(retcode=weighted((2, st.sampled_from(["0", "1", 0])), (1, _json)), output=_json, command=_json)), max_size=2)), (1, _json)),
    python=weighted((2, st.fixed_dictionaries({}, optional=dict(version=_json, executable=_json, version_info=_json))), (1, _json)), installed_packages=_json)))
_toxdata = weighted((4, st.fixed_dictionaries(dict(testenvs=weighted((4, st.dictionaries(weighted((3, st.sampled_from(["py27", "py312"])), (1, _text)), _env, max_size=2)), (1, _json)))
                                             , optional=dict(host=_json, platform=_json, reportversion=_json, toxversion=_json))), (1, _json))
_docfile = weighted((3, st.sampled_from(["index.html", "index.html/", "nope.html", "index.html#x", "index"])), (1, st.lists(_seg, min_size=1, max_size=3).map("/".join)), (1, st.just("")))
_basename = weighted((4, st.sampled_from(["FILE", "WHEEL", "pkg-1.0.tar.gz"])), (2, _seg))
_wq = weighted((2, st.just("")), (5, st.builds(lambda q, p, x: "query=" + quote(q, errors="replace") + p + x, weighted(
    (3, st.sampled_from(["pkg", "", "name:pkg", "type:project", "type:nope", "path:/u1/dev/pkg", "pkg AND", "(pkg", "\"pkg", "pkg*", "*", "?", "\u00e9", "pkg^2", "pkg~", "[a TO b]", "{a TO", "a:b:c", "not", "-x", "author:x", "classifiers:\"x :: y\"", "serial:5", "themes:x", "\0"])),
    (1, st.text(max_size=10))), st.sampled_from(["", "&page=1", "&page=0", "&page=-1", "&page=99999999999", "&page=x", "&page=", "&page=1&page=2"]), st.sampled_from(["", "", "&x=%ff", "&query=pkg"]))), (1, _query))


def web_cases():
    def r(m, path, body=st.none(), q=_query, user=st.sampled_from(["u1", "u1", None])):
        return st.fixed_dictionaries(dict(m=st.just(m) if isinstance(m, str) else m, path=path, q=q, h=weighted((5, st.just({})), (1, _headers)), body=body, user=user))
    g = weighted((8, st.just("GET")), (1, st.just("HEAD")))
    vpath = ("/", weighted((6, st.just("u1")), (1, _u)), "/", _i, "/", _p, "/", weighted((4, st.just("1.0")), (1, st.sampled_from(["latest", "stable"])), (2, _v)))
    wpath = weighted(
        (1, tmpl("/")), (2, tmpl("/", _u)), (3, tmpl("/", _u, "/", _i)), (3, tmpl(*vpath[:6])), (4, tmpl(*vpath)), (1, tmpl(*vpath[:6], "/refresh")), (1, tmpl(*vpath[:4], "/+simple/", _p, "/refresh")),
        (3, tmpl(*vpath, "/+d/", _docfile)), (3, tmpl(*vpath, "/+doc/", _docfile)), (3, tmpl(*vpath, "/+toxresults/", _basename)),
        (3, tmpl(*vpath, "/+toxresults/", _basename, "/", weighted((2, st.just("TOX")), (2, _seg)))), (1, tmpl("/+status")), (1, tmpl("/+searchhelp")), (1, PATHS))
    xml = st.builds(lambda b: dict(t="xml", b=b), st.sampled_from([
        "", "<", "<methodCall/>", "<methodCall><methodName>search</methodName></methodCall>", "<methodCall><methodName>nope</methodName><params/></methodCall>",
        "<methodCall><methodName>search</methodName><params><param><value><struct><member><name>name</name><value><array><data><value><string>pkg</string></value></data></array></value></member></struct></value></param><param><value><string>or</string></value></param></params></methodCall>",
        "<methodCall><methodName>search</methodName><params><param><value><int>5</int></value></param></params></methodCall>",
        "<!DOCTYPE x [<!ENTITY a \"b\">]><methodCall><methodName>&a;</methodName></methodCall>"]))
    jtox = st.builds(lambda x: dict(t="json", j=x), _toxdata)
    return st.fixed_dictionaries(dict(whoosh=st.sampled_from([False, False, True]), rs=st.lists(weighted(
        (8, r(g, wpath)), (2, r(g, tmpl("/+search"), q=_wq)), (1, r("POST", weighted((1, tmpl("/u1/dev")), (1, tmpl("/u1/", _i, "/"))), xml)), (1, r("POST", tmpl(*vpath[:6], "/refresh"))),
        (3, r("POST", tmpl("/u1/dev/+f/", weighted((3, st.just("FILE")), (1, st.just("WHEEL")))), jtox, user=st.just("u1"))), (1, focused())), min_size=3, max_size=10)))


def run_web(case, ctx):
    h = Host(web=True, whoosh=case["whoosh"])
    try:
        pages = 0
        tox = False
        for req in case["rs"]:
            r = h.run(req, ctx, accept="text/html" if req["m"] in ("GET", "HEAD") else None)
            pages += r.status_code == 200 and req["m"] == "GET"
            tox = tox or (req["m"] == "POST" and "/+f/" in req["path"] and r.status_code == 200)
        if tox:
            # the pages showing the stored test results
            for path in ("/u1/dev", "/u1/dev/pkg", "/u1/dev/pkg/1.0", "/u1/dev/pkg/1.0/+toxresults/pkg-1.0.tar.gz"):
                h.run(dict(m="GET", path=[path], q="", h={}, body=None, user="u1"), ctx, accept="text/html")
        if pages >= 2:
            ctx.mark()
    finally:
        h.close()


def subs():
    return [Sub("web", web_cases, run_web, quick=240, thorough=20000, rule="at least two pages were shown", case_timeout=60),
            Sub("requests", cases, run, quick=800, thorough=60000, rule="at least two requests were rejected as client errors", case_timeout=60)]
