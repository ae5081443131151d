"""C15: name normalisation and version ordering are consistent everywhere."""
from vt import boot  # noqa: F401
import json
import re
from urllib.parse import quote, urljoin
from hypothesis import strategies as st
from vt.core import Sub, check, check_equal
from vt.gen import weighted

LEVEL = "exploration"
TECHNIQUE = "property-based testing: normalisation laws, order laws and differential against packaging, and metamorphic comparison of server answers for every spelling of a project name"
ASSUMPTIONS = ["project names consist of letters, digits, '-', '_' and '.' and start and end with a letter or digit, as uploads require"]

WORDS = ["foo", "Bar", "PKG", "x", "1", "2go", "a1", "Zope", "py3", "simple", "dev"]
word = weighted((4, st.sampled_from(WORDS)), (1, st.from_regex(r"\A[A-Za-z0-9]{1,4}\Z")))
SEPS = ["-", "_", ".", "--", "-_", "._.", "__"]


@st.composite
def spellings(draw, n=3):
    """(words, several spellings of the same name)"""
    ws = draw(st.lists(word, min_size=1, max_size=3))
    res = []
    for _ in range(n):
        out = ""
        for i, w in enumerate(ws):
            w = draw(st.sampled_from([str, str.lower, str.upper, str.title]))(w)
            out += (draw(st.sampled_from(SEPS)) if i else "") + w
        res.append(out)
    return dict(words=ws, spelled=res)


def name_cases():
    return st.fixed_dictionaries(dict(a=spellings(), b=spellings(), free=st.text("aZ09-_. é", max_size=10)))


def run_names(case, ctx):
    from devpi_common.validation import normalize_name
    from packaging.utils import canonicalize_name
    a, b = case["a"], case["b"]
    for x in (a, b):
        want = "-".join(w.lower() for w in x["words"])
        if "-" in want:
            ctx.mark()
        for s in x["spelled"]:
            check_equal(normalize_name(s), want, "normalisation of %r" % s)
            check_equal(normalize_name(normalize_name(s)), want, "normalisation twice of %r" % s)
            check_equal(normalize_name(s), canonicalize_name(s), "packaging's view of %r" % s)
    same = [w.lower() for w in a["words"]] == [w.lower() for w in b["words"]]
    ctx.label("same" if same else "different")
    for s in a["spelled"]:
        for t in b["spelled"]:
            check_equal(normalize_name(s) == normalize_name(t), same, "whether %r and %r are the same project" % (s, t))
    f = case["free"]
    n = normalize_name(f)
    check(normalize_name(n) == n and normalize_name(f.upper()).lower() == normalize_name(f.lower()) or "é" in f, "normalisation of %r" % f)


NUM = st.sampled_from([0, 1, 2, 9, 10, 11, 100, 2024])


@st.composite
def std_version(draw):
    v = draw(st.sampled_from(["", "", "", "", "1!", "0!", "v"]))
    v += ".".join(str(draw(NUM)) for _ in range(draw(st.integers(1, 4))))
    if draw(st.integers(0, 2)) == 0:
        v += draw(st.sampled_from(["", "", ".", "-", "_"])) + draw(st.sampled_from(["a", "b", "rc", "alpha", "beta", "c", "pre", "preview", "RC", "A"])) + draw(st.sampled_from(["0", "1", "2", "10", "", ".1"]))
    if draw(st.integers(0, 3)) == 0:
        v += draw(st.sampled_from([".post1", "-1", ".post", "post10", ".rev2", "-r3"]))
    if draw(st.integers(0, 3)) == 0:
        v += draw(st.sampled_from([".dev0", ".dev", "dev10", "-dev2", "_dev1"]))
    if draw(st.integers(0, 4)) == 0:
        v += "+" + draw(st.sampled_from(["l", "1", "1.2", "abc.10", "ABC-1", "ubuntu_1", "00.1"]))
    return v


legacy = st.sampled_from(["2005i", "2004d", "1.0beta5prerelease2", "3.1.4-ec6", "dev", "unknown", "1.0-final-", "foo-1", "", "1.x", "trunk", "1..0", "1.0.", "final", "1.0@x",
                          "2013-02-16", "0.1-dev-r123", "1.0-py2", "a.b.c", "*", "é", "1_0_0-x", "r1", "c", "==", "00x1", "x00"])
version = st.one_of(std_version(), std_version(), legacy, st.text("0123.abrcdevpost-+!_x", min_size=1, max_size=8))


def version_cases():
    return st.lists(version, min_size=1, max_size=7)


def run_versions(case, ctx):
    from devpi_common.metadata import Version, get_latest_version, get_sorted_versions
    from packaging.version import Version as PV, InvalidVersion
    vs = [Version(x) for x in case]
    std = {}
    for x in case:
        try:
            std[x] = PV(x)
        except InvalidVersion:
            ctx.label("legacy")
    if len(std) > 1:
        ctx.mark()
    for a in vs:
        check(a == a and a <= a and a >= a and not a < a and not a > a and not a != a, "%r compared with itself" % str(a))
        check_equal(a.string, str(a), "string")
        sa = str(a)
        if sa in std:
            check_equal(bool(a.is_prerelease()), std[sa].is_prerelease, "whether %r is a prerelease" % sa)
        else:
            check(not a.is_prerelease(), "%r is not known to be a prerelease" % sa)
        for b in vs:
            sb = str(b)
            check((a < b) + (a == b) + (a > b) == 1, "trichotomy of %r and %r" % (sa, sb))
            check((a < b) == (b > a) and (a == b) == (b == a) and (a <= b) == (a < b or a == b) and (a >= b) == (a > b or a == b) and (a != b) == (not a == b), "consistency of %r and %r" % (sa, sb))
            if sa in std and sb in std:
                check_equal((a < b, a == b), (std[sa] < std[sb], std[sa] == std[sb]), "packaging's order of %r and %r" % (sa, sb))
            elif sa not in std and sb in std:
                check(a < b, "the non-standard version %r sorts before the standard %r" % (sa, sb))
            for c in vs:
                if a <= b and b <= c:
                    check(a <= c, "transitivity of %r, %r, %r" % (sa, sb, str(c)))
    fwd = get_sorted_versions(list(case), reverse=False)
    rev = get_sorted_versions(tuple(case))
    for name, res, want in (("ascending", fwd, sorted(case)), ("descending", rev, sorted(case))):
        check_equal(sorted(res), want, "%s sorting of %r is a permutation" % (name, case))
    for a, b in zip(fwd, fwd[1:]):
        check(Version(a) <= Version(b), "ascending order of %r and %r" % (a, b))
    for a, b in zip(rev, rev[1:]):
        check(Version(a) >= Version(b), "descending order of %r and %r" % (a, b))
    stable = [x for x in case if not Version(x).is_prerelease()]
    check_equal(sorted(get_sorted_versions(iter(case), stable=True)), sorted(stable), "stable versions of %r" % case)
    check_equal(get_sorted_versions(case, stable=True), [x for x in rev if x in stable], "order of stable versions of %r" % case)
    for st_, among in ((False, case), (True, stable)):
        latest = get_latest_version(list(case), stable=st_)
        if not among:
            check_equal(latest, None, "latest (stable=%s) of %r" % (st_, case))
        else:
            check(latest in among, "latest (stable=%s) of %r is %r" % (st_, case, latest))
            check(all(Version(latest) >= Version(x) for x in among), "latest (stable=%s) of %r is %r" % (st_, case, latest))


PIP = "pip/23.0 {}"


def server_cases():
    return st.fixed_dictionaries(dict(
        name=spellings(5), other=spellings(1), versions=st.lists(std_version().filter(lambda v: re.match(r"^[\w.+]+$", v)), min_size=1, max_size=3, unique=True),
        register=st.booleans(), on=st.sampled_from(["u/dev", "u/base"]),
        delete=st.sampled_from([None, "project", "version"])))


def run_server(case, ctx):
    """all spellings of a project get the answer of the normalised name, from every view"""
    from vt.server import Server
    from devpi_common.metadata import get_latest_version
    spelled, words = case["name"]["spelled"], case["name"]["words"]
    norm = "-".join(w.lower() for w in words)
    if len(words) > 1:
        ctx.mark()
    with Server() as s:
        s.create_user("u")
        s.create_index("u/base")
        s.create_index("u/dev", bases=["u/base"])
        on = case["on"]
        other = case["other"]["spelled"][0]
        if "-".join(w.lower() for w in case["other"]["words"]) != norm:
            s.upload(on, other, "0.5", "%s-0.5.tar.gz" % other, b"other", user="u")
        for i, v in enumerate(case["versions"]):
            up = spelled[i % 2]
            if case["register"] and i == 0:
                r = s.post_form("/%s/" % on, [(":action", "submit"), ("name", spelled[1]), ("version", v)], user="u")
                check_equal(r.status_code, 200, "registering %r %r" % (spelled[1], v))
            r = s.upload(on, up, v, "%s-%s.tar.gz" % (up, v), b"content %d" % i, user="u")
            check_equal(r.status_code, 200, "uploading %r %r: %r" % (up, v, r))

        def follow(path, accept, ua=None):
            r = s.get(path, accept=accept, headers={"User-Agent": ua} if ua else None)
            n = 0
            while r.status_code in (301, 302, 303, 307, 308) and n < 3:
                n += 1
                loc = r.headers["Location"]
                check(loc.startswith("http://localhost/"), "redirect of %s to %r" % (path, loc))
                path = loc[len("http://localhost"):]
                r = s.get(loc, accept=accept, headers={"User-Agent": ua} if ua else None)
            # links are relative to where the request ended
            return r.status_code, re.sub(rb'(?<=")[^"/]*/[^"]*?\+f/[^"]*|(?<=")\+f/[^"]*', lambda m: urljoin(path, m.group().decode()).encode(), r.body)

        views = []
        vs = [quote(v) for v in case["versions"]]
        for index in ("u/dev", "u/base"):
            for tail in ("", "/"):
                views.append(("/%s/+simple/%%s%s" % (index, tail), "text/html", None))
                views.append(("/%s/+simple/%%s%s" % (index, tail), "application/vnd.pypi.simple.v1+json", None))
                views.append(("/%s/+simple/%%s%s" % (index, tail), "*/*", PIP))
                views.append(("/%s/%%s%s" % (index, tail), "*/*", PIP))
            views.append(("/%s/%%s" % index, "application/json", None))
            views.append(("/%s/%%s?ignore_bases" % index, "application/json", None))
            for v in vs:
                v = v.replace("%", "%%")
                views.append(("/%s/%%s/%s" % (index, v), "application/json", None))
        for pat, accept, ua in views:
            want = follow(pat % norm, accept, ua)
            index = pat[1:].rpartition("/%s")[0].replace("/+simple", "")
            has = (index == on or index == "u/dev") and ("ignore_bases" not in pat or index == on)
            if has:
                check_equal(want[0], 200, "status of %s with %s for a project on %s" % (pat % norm, accept, on))
            for x in spelled:
                got = follow(pat % x, accept, ua)
                check(got == want, lambda: "%s (%s, %s): %r, but for the normalised name: %r" % (pat % x, accept, ua, got[:300], want[:300]))
        # the project is listed once and knows all its versions and the latest one
        r = s.get("/%s" % on).json["result"]["projects"]
        check_equal(r.count(norm), 1, "%r in project list %r" % (norm, r))
        r = json.loads(follow("/%s/%s" % (on, spelled[2]), "application/json")[1])["result"]
        check_equal(sorted(r), sorted(case["versions"]), "versions of %r" % spelled[2])
        with s.keyfs.read_transaction():
            for index in ([on, "u/dev"]):
                stage = s.model.getstage(index)
                for x in (norm, spelled[3]):
                    check_equal(stage.get_latest_version(x), get_latest_version(case["versions"]), "latest version of %r" % x)
                    check_equal(stage.get_latest_version(x, stable=True), get_latest_version(case["versions"], stable=True), "latest stable version of %r" % x)
                    check(stage.has_project(x), "%r is known on %s" % (x, index))
        # deleting under any spelling deletes it for all
        x, v = spelled[4], case["versions"][0]
        if case["delete"] == "project":
            check_equal(s.delete("/%s/%s" % (on, x), user="u").status_code, 200, "deleting %r" % x)
            for y in spelled + [norm]:
                check_equal(follow("/%s/+simple/%s/" % (on, y), "text/html")[0], 404, "simple page of the deleted %r" % y)
        elif case["delete"] == "version":
            check_equal(s.delete("/%s/%s/%s" % (on, x, quote(v)), user="u").status_code, 200, "deleting %r %s" % (x, v))
            for y in spelled + [norm]:
                check_equal(follow("/%s/%s/%s" % (on, y, quote(v)), "application/json")[0], 404, "version of the deleted %r %r" % (y, v))
        ctx.label("delete-%s" % case["delete"])


def subs():
    return [Sub("names", name_cases, run_names, quick=8000, thorough=200000, rule="pairs of names in several spellings; non-trivial with separators"),
            Sub("versions", version_cases, run_versions, quick=6000, thorough=200000, rule="multisets of standard and non-standard versions; non-trivial with at least two standard ones"),
            Sub("spellings", server_cases, run_server, quick=400, thorough=8000, rule="a project uploaded under several spellings, every view compared for every spelling; non-trivial with separators")]
