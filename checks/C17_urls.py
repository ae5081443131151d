"""C17: URL manipulation obeys its laws."""
from vt import boot  # noqa: F401
import hashlib
from urllib.parse import urljoin, urlsplit, unquote, parse_qsl
from hypothesis import strategies as st
from vt.core import Sub, check, check_equal
from vt.gen import weighted

LEVEL = "exploration"
TECHNIQUE = "property-based testing of algebraic laws over grammar-generated URLs, with urllib's RFC 3986 resolution as oracle"
ASSUMPTIONS = ["path segments that are added or computed contain no raw '?', '#' or '/' and a first relative segment contains no ':' (RFC 3986 4.2)",
               "URLs with an empty but present query, fragment, port, user name or last path parameter are not generated"]

SEGS = ["a", "+simple", "Foo.Bar", "pkg-1.0.tar.gz", "x%20y", "%2F", "~u", "-", "_", "a=b", "a@b", "a+b", "é", "1.0+l", "v;p", "+f", "...", "a,b", "%C3%A9",
        "root", "dev", "pkg-1.0.zip", "ab", "b"]
seg = weighted((4, st.sampled_from(SEGS)), (1, st.text("abcXYZ019-._~!$&'()*+,;=@%", min_size=1, max_size=8)
                                             .map(lambda s: s.replace("%", "%25")).filter(lambda s: s.split(";")[0] not in ("", ".", "..") and not s.endswith(";"))))
path = st.one_of(st.just(""), st.just("/"), st.tuples(st.lists(seg, min_size=1, max_size=5), st.booleans()).map(lambda t: "/" + "/".join(t[0]) + ("/" if t[1] else "")))
user = st.sampled_from(["user", "u%40x", "a.b", "U"])
pw = st.sampled_from(["pw", "p%3Aq", "x!y", "1"])
host = weighted((3, st.sampled_from(["localhost", "example.com", "127.0.0.1", "pypi.org"])), (1, st.sampled_from(["[::1]", "EXAMPLE.org", "[fe80::1:2]", "xn--e1afmkfd.x"])))
cred = st.one_of(st.just((None, None)), st.tuples(user, st.none()), st.tuples(user, pw))
port = st.one_of(st.none(), st.sampled_from([80, 443, 3141, 1, 65535]))
query = st.one_of(st.just(""), st.sampled_from(["a=b", "a=b&c=d", "x", "a=%26&b=c%3Dd", "ignore_bases", "a=1&a=2"]))
HASHES = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512"]
frag = st.one_of(st.just(""), st.sampled_from(["x", "egg=pkg", "foo=1", "md5"]),
                 st.tuples(st.sampled_from(HASHES), st.text("0123456789abcdef", min_size=1, max_size=64)).map("=".join),
                 st.just("sha256=a=b"))


def urls():
    return st.fixed_dictionaries(dict(scheme=st.sampled_from(["http", "https"]), cred=cred, host=host, port=port, path=path, query=query, frag=frag))


def netloc(u, p, h, port):
    c = "" if u is None and p is None else (u or "") + (":" + p if p is not None else "") + "@"
    return c + h + (":%s" % port if port else "")


def text(d):
    return "%s://%s%s%s%s" % (d["scheme"], netloc(d["cred"][0], d["cred"][1], d["host"], d["port"]), d["path"],
                              "?" + d["query"] if d["query"] else "", "#" + d["frag"] if d["frag"] else "")


def cases():
    return st.fixed_dictionaries(dict(
        url=urls(), other=urls(), segs=st.lists(seg, min_size=1, max_size=3), target=path.filter(bool), common=st.integers(0, 4),
        repl=st.sets(st.sampled_from(["scheme", "path", "query", "fragment", "username", "password", "hostname", "port"]), min_size=1, max_size=3).map(sorted),
        drop=st.booleans()))


def run(case, ctx):
    from devpi_common.url import URL
    d = case["url"]
    s = text(d)
    u = URL(s)
    ctx.label("ipv6" if "[" in d["host"] else "host")
    if d["query"] or d["frag"] or d["cred"][0]:
        ctx.mark()
    # identity
    check_equal(u.url, s, "URL(s).url")
    check_equal(str(u), s, "str")
    check(URL(u) == u and u == s and hash(URL(u)) == hash(u) and not (u != URL(s)), "equality of %r" % s)
    check(bool(u), "truth of %r" % s)
    # components
    check_equal((u.scheme, u.path, u.query, u.fragment), (d["scheme"], d["path"], d["query"], d["frag"]), "components of %s" % s)
    check_equal((u.username, u.password, u.port), (d["cred"][0], d["cred"][1], d["port"]), "authority of %s" % s)
    check_equal(u.hostname, d["host"].strip("[]").lower(), "hostname of %s" % s)
    check_equal(u.netloc, netloc(d["cred"][0], d["cred"][1], d["host"], d["port"]), "netloc of %s" % s)
    check_equal(u.get_query_items(), parse_qsl(d["query"]), "query items of %s" % s)
    check(u.is_valid_http_url(), "%s is a valid http url" % s)
    # secrets are cloaked, nothing fails
    r = repr(u)
    if d["cred"][1] is not None:
        check(":%s@" % d["cred"][1] not in r and "****" in r, "repr %r of %s shows the password" % (r, s))
    # fragments and hashes
    nofrag = s.split("#")[0]
    check_equal(u.geturl_nofragment().url, nofrag, "geturl_nofragment of %s" % s)
    check_equal(u.url_nofrag, nofrag, "url_nofrag of %s" % s)
    typ, eq, val = d["frag"].partition("=")
    if eq and typ in HASHES:
        ctx.label("hash")
        check_equal((u.hash_type, u.hash_value, u.hash_spec, u.hash_algo), (typ, val, d["frag"], getattr(hashlib, typ)), "hash of %s" % s)
        check_equal(u.md5, val if typ == "md5" else None, "md5 of %s" % s)
        check_equal(u.sha256, val if typ == "sha256" else None, "sha256 of %s" % s)
    else:
        check_equal((u.hash_type, u.hash_value, u.hash_spec, u.md5, u.sha256), (None, None, "", None, None), "hash of %s" % s)
    # replace: exactly the named parts
    check_equal(u.replace().url, s, "replace() of %s" % s)
    new = dict(d)
    kw = {}
    o = case["other"]
    for k in case["repl"]:
        if k in ("scheme", "path", "query"):
            v = o[k] or ("/" if k == "path" else "")
            new[k] = kw[k] = v
        elif k == "fragment":
            new["frag"] = kw[k] = o["frag"]
        elif k == "hostname":
            new["host"] = kw[k] = o["host"]
        elif k == "port":
            new["port"] = kw[k] = None if case["drop"] else o["port"]
        elif k == "username":
            new["cred"] = (None if case["drop"] else o["cred"][0], new["cred"][1])
            kw[k] = new["cred"][0]
        else:
            new["cred"] = (new["cred"][0], None if case["drop"] else o["cred"][1])
            kw[k] = new["cred"][1]
    check_equal(u.replace(**kw).url, text(new), "replace(%r) of %s" % (kw, s))
    check_equal(u.url, s, "the original after replace")
    # directories
    asdir = text(dict(d, path=d["path"] if d["path"].endswith("/") else d["path"] + "/"))
    check_equal(u.asdir().url, asdir, "asdir of %s" % s)
    check_equal(u.asdir().asdir().url, asdir, "asdir twice")
    check_equal(u.asfile().url, text(dict(d, path=d["path"].rstrip("/"))), "asfile of %s" % s)
    if not d["path"].endswith("/") and d["path"]:
        check_equal(u.asdir().asfile().url, s, "asdir().asfile() of %s" % s)
    parts = [unquote(x) for x in d["path"].split("/")]
    check_equal(u.basename, parts[-1].split("/")[-1], "basename of %s" % s)
    if not any("%2F" in x for x in d["path"].split("/")[-2:]) and len(parts) > 1:
        check_equal(u.parentbasename, parts[-2], "parentbasename of %s" % s)
    # adding
    segs = [x for x in case["segs"]]
    added = u.addpath(*segs)
    dirpath = d["path"] if d["path"].endswith("/") else d["path"] + "/"
    # the fragment belongs to the old resource
    check_equal(added.url, text(dict(d, path=dirpath + "/".join(segs), frag="")), "addpath(%r) of %s" % (segs, s))
    check_equal(added.basename, unquote(segs[-1]).split("/")[-1], "basename after addpath(%r)" % segs)
    check_equal(u.addpath(*segs, asdir=True).url, text(dict(d, path=dirpath + "/".join(segs) + "/", frag="")), "addpath(%r, asdir) of %s" % (segs, s))
    one = u
    for x in segs:
        one = one.addpath(x)
    check_equal(one.url, added.url, "adding one by one")
    check_equal(URL(u.asdir(), *segs).url, added.url, "URL(base, *segs)")
    # joining: RFC 3986 resolution of the first, then below
    base = urlsplit(s)._replace(query="", fragment="").geturl()
    want = urljoin(base, segs[0])
    for x in segs[1:]:
        want = urljoin(want.rstrip("/") + "/", x)
    check_equal(u.joinpath(*segs).replace(query="").url, want, "joinpath(%r) of %s" % (segs, s))
    check_equal(u.joinpath(*segs).query, d["query"], "query after joinpath")
    check_equal(u.joinpath(case["target"]).path, case["target"], "joining an absolute path")
    # relative paths: share some leading segments with the base
    a, b = d["path"].split("/"), case["target"].split("/")
    n = min(case["common"], len(a) - 1)
    target = "/".join(a[:n] + b[1:]) if n else case["target"]
    if not target.startswith("/"):
        target = "/" + target
    for t in (target, case["target"], d["path"] or "/", "/", (d["path"].rsplit("/", 1)[0] or "/")):
        rel = u.relpath(t)
        check_equal(urljoin(d["path"] or "/", rel) if rel else t, t, "resolving %r from %s to %s" % (rel, d["path"], t), key="relpath")
        if not rel:
            check_equal(t, d["path"] or "/", "empty relative path", key="relpath")
    # canonical relative path
    if not d["query"] and not d["frag"]:
        check_equal(URL.fromrelpath(u.torelpath()).url, s, "fromrelpath(torelpath())")


def anything(case, ctx):
    """no attribute or operation of a syntactically valid URL fails"""
    from devpi_common.url import URL
    s = text(case["url"])
    ctx.mark()
    u = URL(s)
    for a in ("scheme", "netloc", "username", "password", "hostname", "port", "path", "query", "fragment", "basename", "parentbasename", "hash_spec",
              "hash_type", "hash_algo", "hash_value", "md5", "sha256", "url_nofrag"):
        getattr(u, a)
    for base in (u, URL(case["other"]["path"] or "x")):
        for rel in case["rels"]:
            str(base.joinpath(rel))
            str(base.addpath(rel))
            str(base.joinpath(rel, asdir=True))
            repr(base.joinpath(rel))
    for t in case["targets"]:
        u.relpath(t)


def rel_cases():
    return st.fixed_dictionaries(dict(url=urls(), other=urls(),
                                      rels=st.lists(st.one_of(seg, st.sampled_from(["..", ".", "../..", "/x", "//h/x", "?q", "#f", "", "a//b", "http://h/p?q#f"])), min_size=1, max_size=3),
                                      targets=st.lists(path.map(lambda p: p or "/"), min_size=1, max_size=4)))


def subs():
    return [Sub("laws", cases, run, quick=12000, thorough=400000, rule="grammar-generated http URLs; non-trivial with credentials, query or fragment"),
            Sub("total", rel_cases, anything, quick=4000, thorough=100000, rule="all operations and attributes, references of every RFC 3986 form")]
