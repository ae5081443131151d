"""C19: simple pages list each file once, identically in HTML and JSON, with live links."""
from vt import boot  # noqa: F401
import hashlib
import json
from urllib.parse import quote, unquote, urljoin, urlsplit
from hypothesis import strategies as st
from vt.core import Sub, Violation, check, check_equal
from vt.observe import anchors

LEVEL = "exploration"
TECHNIQUE = "differential property testing of all forms of the simple pages of generated index contents, with link-following against the uploaded bytes"
ASSUMPTIONS = ["clients resolve links against the page URL as RFC 3986 says and decode HTML character references",
               "file names contain no slash and no control characters"]

JSON_TYPE = "application/vnd.pypi.simple.v1+json"
junk = st.one_of(st.just(""), st.just(""), st.sampled_from(["+local", " x", "%41", "#y", "%", "&amp;", "&", "<b>", '"', "'", "?q=1", "ü", "\u20ac", ";v", "=", ",", "@", "[1]", "~", "!", "$", "(1)", "*", ":", "\\", "%2F", "|", "^", "`", "{}"]),
                 st.text(alphabet="+%&<>\"'?=;:@ü€ x1[]~", min_size=1, max_size=4))
rp_st = st.one_of(st.just(""), st.sampled_from([">=3.6", "<4,>=3", "!=3.0.*,>=2.7", ">=3 & \"x\"", "<'>&amp;", "ü"]))
yank_st = st.sampled_from([None, None, True, "", "bad", "a \"b\" <c> & d", "ü€"])
file_st = st.fixed_dictionaries(dict(v=st.integers(1, 3), junk=junk, ext=st.sampled_from([".tar.gz", ".zip", "-py3-none-any.whl", ".tgz", ".exe", ".tar.bz2"]),
                                     c=st.integers(0, 2), rp=rp_st, yank=yank_st, hash=st.sampled_from(["sha256", "sha256", "md5", None])))
OUTSIDE = [None, None, "http://outside.example", "http://outside.example/", "https://out.example:4040/pypi", "https://out.example/ro", "http://outside.example/a/b"]


def cases():
    return st.fixed_dictionaries(dict(
        name=st.sampled_from(["pkg", "Foo.Bar", "a_b", "x1-2y"]), kind=st.sampled_from(["private", "private", "mirror", "mixed"]),
        files=st.lists(file_st, min_size=1, max_size=5), fmt=st.sampled_from(["html", "json"]), absolute=st.booleans(),
        outside=st.sampled_from(OUTSIDE), keep_prefix=st.booleans(), others=st.lists(st.sampled_from(["other", "Zope", "a-b-c", "q.r_s"]), unique=True, max_size=3)))


_up = []


def worker_setup():
    from vt.upstream import Pypi
    _up.append(Pypi())


def fname(name, f):
    return "%s-%d.0%s%s" % (name.replace("-", "_"), f["v"], f["junk"], f["ext"])


class Page:
    def __init__(self, server, case, index, project):
        self.server, self.case = server, case
        self.index, self.project = index, project
        self.outside = case["outside"]
        self.prefix = urlsplit(self.outside).path.rstrip("/") if self.outside else ""
        self.root = self.outside.rstrip("/") if self.outside else "http://localhost"

    def request(self, path, accept, ua=None, method="GET"):
        h = {}
        if accept:
            h["Accept"] = accept
        if self.outside:
            h["X-Outside-Url"] = self.outside
        if self.case["absolute"]:
            h["X-Devpi-Absolute-Urls"] = "1"
        if ua:
            h["User-Agent"] = ua
        target = path
        if self.prefix and self.case["keep_prefix"]:
            target = self.prefix + path
        return self.server.request(method, target, headers=h)

    def follow(self, url):
        """GET an absolute URL as seen by the client"""
        check(url.startswith(self.root + "/"), "link %r leads outside of %r" % (url, self.root))
        u = urlsplit(url)
        path = u.path + ("?" + u.query if u.query else "")
        return self.request(path[len(self.prefix):], None)

    def html(self, path, ua=None):
        r = self.request(path, "text/html" if ua is None else "*/*", ua)
        check_equal(r.status_code, 200, "GET %s" % path)
        out = []
        for attrs, text in anchors(r.text):
            u = urljoin(self.root + path, attrs["href"])
            url, _, frag = u.partition("#")
            y = attrs.get("data-yanked")
            extra = sorted(set(attrs) - {"href", "data-requires-python", "data-yanked"})
            check_equal(extra, [], "%s: attributes of the link of %r" % (path, text))
            out.append((text, url, frag, attrs.get("data-requires-python"), None if y is None else (y or True)))
        return out

    def json(self, path):
        r = self.request(path, JSON_TYPE)
        check_equal(r.status_code, 200, "GET %s as JSON" % path)
        check(r.headers.get("content-type", "").startswith(JSON_TYPE), "content type %r" % r.headers.get("content-type"))
        data = json.loads(r.body)
        out = []
        for f in data["files"]:
            frag = "".join("%s=%s" % x for x in f["hashes"].items())
            out.append((f["filename"], urljoin(self.root + path, f["url"]), frag, f.get("requires-python"), f.get("yanked")))
        return data, out


def build(server, case, up):
    """upload / mirror the files; returns {filename: (content or None, hash, rp, yanked)}"""
    from vt.upstream import File
    name = case["name"]
    want = {}
    private = case["kind"] in ("private", "mixed")
    server.login("root")
    up.projects.clear()
    if case["kind"] in ("mirror", "mixed"):
        up.fmt, up.noise = case["fmt"], []
        files = {}
        for f in case["files"]:
            if private and f["c"] == 0:
                continue
            n = fname(name, f)
            if n not in files:
                files[n] = File(n, b"%d" % f["c"], f["hash"], f["rp"] or None, f["yank"])
        up.projects[name] = list(files.values())
        for o in case["others"]:
            up.projects[o] = []
        for n, f in files.items():
            want[n] = (f.content, f.hash_spec, f.requires_python, None if f.yanked is None else (f.yanked or True))
        server.create_index("root/mirror", user="root", type="mirror", mirror_url=up.url + "/simple/", volatile=False)
    if private:
        server.create_index("root/dev", user="root", bases=["root/mirror"] if case["kind"] == "mixed" else [], **(dict(mirror_whitelist="*") if case["kind"] == "mixed" else {}))
        metas = {}
        for f in case["files"]:
            if case["kind"] == "mixed" and f["c"] != 0:
                continue
            n = fname(name, f)
            rp = metas.setdefault(f["v"], f["rp"])
            content = b"private %d" % f["c"]
            r = server.upload("root/dev", name, "%d.0" % f["v"], n, content, user="root", extra=[("requires_python", rp)] if rp else [])
            if r.status_code == 200:
                want[n] = (content, "sha256=" + hashlib.sha256(content).hexdigest(), rp or None, None)
            else:
                check(r.status_code < 500 or f["junk"], "upload of %r answered with %s" % (n, r.status_code))
        for o in case["others"]:
            r = server.post_form("/root/dev/", [(":action", "submit"), ("name", o), ("version", "1.0")], user="root")
            check_equal(r.status_code, 200, "register %s" % o)
    return want


def run(case, ctx):
    from vt.server import Server
    from vt.upstream import Pypi
    up = _up[0]
    with Server() as server:
        want = build(server, case, up)
        index = "root/mirror" if case["kind"] == "mirror" else "root/dev"
        norm = Pypi.norm(case["name"])
        page = Page(server, case, index, norm)
        # project lists
        base = "/%s/+simple/" % index
        r = page.request(base, JSON_TYPE)
        check_equal(r.status_code, 200, "project list")
        jl = [p["name"] for p in json.loads(r.body)["projects"]]
        hl = page.html(base)
        pl = page.html(base, "pip/24.0")
        check_equal([x[0] for x in page.html(base[:-1], "pip/24.0")], jl, "project list without slash")
        check_equal([x[0] for x in pl], jl, "project list: installer HTML against JSON")
        check_equal(sorted(x[0] for x in hl), sorted(jl), "project list: HTML against JSON")
        check_equal(len(set(jl)), len(jl), "project list %r: duplicates" % jl)
        for text, url, *_ in hl:
            rr = page.follow(url)
            check_equal(rr.status_code, 200, "link %r of the project list" % url)
        exists = set() if not want and case["kind"] != "mirror" else {norm}
        check(exists <= set(jl), "project list %r misses %s" % (jl, norm))
        if not want:
            ctx.label("empty")
            return
        path = "/%s/+simple/%s/" % (index, quote(norm))
        html, pip = page.html(path), page.html(path, "pip/24.0")
        pip2 = page.html(path[:-1], "pip/24.0")
        data, js = page.json(path)
        data2, js2 = page.json(path[:-1])
        try:
            compare(case, ctx, page, path, want, norm, html, pip, pip2, data, js, js2)
        except Violation as e:
            if any("#" in n for n in want):
                e.key = "number-sign-in-name"
            raise
        check(not up.errors, "harness: %r" % up.errors)


def compare(case, ctx, page, path, want, norm, html, pip, pip2, data, js, js2):
    check_equal(data["meta"], {"api-version": "1.0"}, "meta")
    check_equal(data["name"], norm, "name")
    check_equal(pip, js, "installer HTML against JSON")
    check_equal((pip2, js2), (pip, js), "pages without trailing slash against those with")
    check_equal(sorted(html, key=repr), sorted(pip, key=repr), "browser HTML against installer HTML")
    names = [x[0] for x in pip]
    check_equal(len(set(names)), len(names), "a file is listed twice: %r" % sorted(names))
    check_equal(sorted(((n, f, rp or None, y) for n, u, f, rp, y in pip), key=repr), sorted(((n, w[1], w[2], w[3]) for n, w in want.items()), key=repr), "files on the page")
    odd = False
    for n, url, frag, rp, y in pip:
        odd = odd or quote(n, safe="") != n or rp is not None and "<" in rp or y is not None
        check_equal(unquote(urlsplit(url).path.rsplit("/", 1)[1]), n, "last part of the link to %r" % n)
        r = page.follow(url)
        check_equal((r.status_code, r.body), (200, want[n][0]), "content behind the link to %r" % n)
        typ, _, digest = frag.partition("=")
        if typ:
            check_equal(hashlib.new(typ, r.body).hexdigest(), digest, "announced hash of %r" % n)
    if odd or len(pip) > 1:
        ctx.mark(case["kind"])
    if odd:
        ctx.label("odd")


def subs():
    return [Sub("pages", cases, run, quick=500, thorough=15000, rule="pages with at least two files, or with names or attributes which need quoting")]
