"""C16: file names are split into the right project, version and type."""
from vt import boot  # noqa: F401
import re
from hypothesis import strategies as st
from vt.core import Sub, check, check_equal
from vt.gen import weighted

LEVEL = "exploration"
TECHNIQUE = "property-based testing: file names are composed from known parts (round-trip oracle, differential with packaging.utils) and arbitrary names are fuzzed for totality"
ASSUMPTIONS = ["versions are in PEP 440 normal form; names that also read as a platform suffix ('.win', '.linux-', '.macosx-N') or combine a '.' with a '-<digit>' or '-py2/-py3' like part are ambiguous and not generated for sdists",
               "platform specific installers (exe, msi, rpm, dumb) are only generated for names without '-py2/-py3' like parts"]

WORDS = ["foo", "Bar", "pkg", "suds", "py3", "py2app", "cp27", "pp", "win", "linux", "macosx", "src", "doc", "docs", "egg", "whl", "tar", "zip", "none", "any",
         "1", "2", "3x", "x1", "0", "post1", "dev", "a1", "rc", "beta", "noarch", "v", "c", "Z9", "abi3", "ip3", "jy27", "dist", "info"]
word = weighted((5, st.sampled_from(WORDS)), (1, st.from_regex(r"\A[A-Za-z0-9]{1,5}\Z")))


@st.composite
def names(draw):
    ws = draw(st.lists(word, min_size=1, max_size=4))
    out = ws[0]
    for w in ws[1:]:
        out += draw(st.sampled_from(["-", "-", "-", "_", ".", "--", "_-"])) + w
    return out


@st.composite
def versions(draw):
    n = st.sampled_from([0, 1, 2, 3, 10, 27, 2013, 20240101])
    v = ""
    if draw(st.integers(0, 9)) == 0:
        v += "%d!" % draw(st.sampled_from([1, 2]))
    v += ".".join(str(draw(n)) for _ in range(draw(st.integers(1, 4))))
    if draw(st.integers(0, 3)) == 0:
        v += draw(st.sampled_from(["a", "b", "rc"])) + str(draw(n))
    if draw(st.integers(0, 4)) == 0:
        v += ".post%d" % draw(n)
    if draw(st.integers(0, 4)) == 0:
        v += ".dev%d" % draw(n)
    if draw(st.integers(0, 4)) == 0:
        v += "+" + ".".join(draw(st.lists(st.sampled_from(["l", "1", "g1234abc", "ubuntu", "py3", "deadbeef"]), min_size=1, max_size=3)))
    return v


PYTAGS = [("py3", "3"), ("py2", "2"), ("py2.py3", "2.7"), ("py27", "2.7"), ("py39", "3.9"), ("py310", "3.10"), ("cp27", "2.7"), ("cp38", "3.8"), ("cp310", "3.10"), ("cp312", "3.12"),
          ("pp38", "3.8"), ("pp310", "3.10"), ("cp36.cp37", "3.6")]
ABIS = ["none", "abi3", "cp38", "cp27mu", "pypy_41", "pypy38_pp73"]
PLATS = ["any", "win32", "win_amd64", "linux_x86_64", "manylinux_2_17_x86_64.manylinux2014_x86_64", "macosx_10_9_universal2"]


def cases():
    return st.fixed_dictionaries(dict(
        name=names(), version=versions(),
        kind=st.sampled_from(["sdist", "sdist", "sdist", "wheel", "wheel", "egg", "doc", "wininst", "msi", "dumb", "rpm", "bare"]),
        ext=st.sampled_from([".tar.gz", ".zip", ".tgz", ".tar.bz2"]), upper=st.integers(0, 9).map(lambda x: x == 0),
        py=st.sampled_from(range(len(PYTAGS))), abi=st.sampled_from(ABIS), plat=st.sampled_from(PLATS),
        build=st.sampled_from([None, None, None, "1", "2abc", "20240101_1"]), eggpy=st.sampled_from(["2.7", "3.3", "3.10", "3.12", "27"]),
        eggplat=st.sampled_from([None, "win32", "win-amd64", "linux-x86_64", "macosx-10.9-x86_64"]), norm=st.booleans()))


PYPART = re.compile(r"-(?:py|cp|ip|pp|jy)[23]", re.I)
PLATPART = re.compile(r"\.(win|linux-|macosx-\d)", re.I)


def in_domain(name, version, kind):
    full = name + "-" + version
    if PLATPART.search(full) or kind == "bare" and name.lower().endswith((".tar", ".doc")):
        return False
    if kind in ("sdist", "doc"):
        if "." in name and (PYPART.search(full) or re.search(r"-\d", name)):
            return False
        return True
    return not PYPART.search(full) and not re.search(r"-\d", name)


def run(case, ctx):
    from devpi_common import metadata as md
    from devpi_common.validation import normalize_name
    from packaging.utils import parse_sdist_filename, parse_wheel_filename, canonicalize_name
    from packaging.version import Version
    name, version, kind = case["name"], case["version"], case["kind"]
    fname = name
    want_type = None
    if kind == "sdist":
        if case["norm"]:
            fname = re.sub(r"[-_.]+", "_", name).lower()
        ext = case["ext"].upper() if case["upper"] else case["ext"]
        fn = "%s-%s%s" % (fname, version, ext)
        wantext = ext
        want_type = ("source", "sdist")
    elif kind == "doc":
        fn = "%s-%s.doc.zip" % (name, version)
        wantext = ".doc.zip"
    elif kind == "wheel":
        fname = re.sub(r"[-_.]+", "_", name)
        py, want = PYTAGS[case["py"]]
        wantext = "-%s-%s-%s.whl" % (py, case["abi"], case["plat"])
        fn = "%s-%s%s%s" % (fname, version, "-" + case["build"] if case["build"] else "", wantext)
        want_type = (want, "bdist_wheel")
    elif kind == "egg":
        fname = name.replace("-", "_")
        wantext = "-py%s%s.egg" % (case["eggpy"], "-" + case["eggplat"] if case["eggplat"] else "")
        fn = "%s-%s%s" % (fname, version, wantext)
        want_type = ("2.7" if case["eggpy"] == "27" else case["eggpy"], "bdist_egg")
    elif kind in ("wininst", "msi"):
        e = ("EXE" if case["upper"] else "exe") if kind == "wininst" else "msi"
        wantext = ".win%s-py%s.%s" % ("32" if case["norm"] else "-amd64", case["eggpy"], e)
        fn = "%s-%s%s" % (name, version, wantext)
        want_type = ("2.7" if case["eggpy"] == "27" else case["eggpy"], "bdist_wininst" if kind == "wininst" else "bdist_msi")
    elif kind == "dumb":
        wantext = (".linux-x86_64" if case["norm"] else ".macosx-10.9-x86_64") + ".tar.gz"
        fn = "%s-%s%s" % (name, version, wantext)
        want_type = ("any", "bdist_dumb")
    elif kind == "rpm":
        wantext = "-1.noarch.rpm" if case["norm"] else "-1.src.rpm"
        fn = "%s-%s%s" % (name, version, wantext)
    else:
        fname = name.replace("-", "_")
        fn = fname + case["ext"]
        version, wantext = "", case["ext"]
    if not in_domain(fname, version, kind):
        ctx.label("ambiguous")
        return
    ctx.label(kind)
    if "-" in fname or "." in fname or "+" in version or kind not in ("sdist",):
        ctx.mark()
    check_equal(tuple(md.splitbasename(fn)), (fname, version, wantext), "parts of %r" % fn)
    bm = md.BasenameMeta(fn)
    check_equal((bm.name, bm.version, bm.ext), (fname, version, wantext), "BasenameMeta of %r" % fn)
    again = md.BasenameMeta(fn)
    check(bm == again and not bm < again and not bm > again and bm >= again, "BasenameMeta(%r) is equal to itself" % fn)
    if want_type is not None and kind != "bare":
        check_equal(md.get_pyversion_filetype(fn), want_type, "python version and type of %r" % fn)
    base, ext = md.splitext_archive(fn)
    check_equal(base + ext, fn, "splitext_archive")
    wantsplit = {"sdist": wantext, "doc": wantext, "bare": wantext, "dumb": ".tar.gz"}.get(kind, "." + fn.rpartition(".")[2])
    check_equal(ext, wantsplit, "archive extension of %r" % fn)
    # it is a link to an archive of the project, for every spelling
    proj = normalize_name(name)
    check(md.is_archive_of_project(fn, proj), "%r is an archive of %r" % (fn, proj))
    check(not md.is_archive_of_project(fn + ".txt", proj), "%r is no archive" % (fn + ".txt"))
    check(not md.is_archive_of_project(fn, "zz" + proj), "%r is not of project %r" % (fn, "zz" + proj))
    # differential
    if kind == "sdist" and wantext in (".tar.gz", ".zip"):
        n, v = parse_sdist_filename(fn)
        check_equal((canonicalize_name(bm.name), Version(bm.version)), (n, v), "packaging's view of %r" % fn)
    if kind == "wheel":
        n, v, build, tags = parse_wheel_filename(fn)
        check_equal((canonicalize_name(bm.name), Version(bm.version)), (n, v), "packaging's view of %r" % fn)


CHUNKS = ["foo", "-", ".", "1", "1.0", "a", "_", "+", "!", "py3", "-py2.7", ".win32", ".win", ".linux-", ".macosx-10", ".tar", ".gz", ".zip", ".whl", ".egg", ".doc.zip",
          ".dist-info", ".rpm", ".src.rpm", ".exe", ".msi", ".deb", "-none-any", " ", "é", "%", "\n", "dev", "post", "rc1", "0", "..", "--", ".EXE", ".Whl", ".Egg", "2", "3", ".TAR.GZ", ".Zip", "\x00", "#"]
chunky = st.lists(st.sampled_from(CHUNKS), min_size=0, max_size=7).map("".join)


def fuzz_cases():
    return st.lists(st.one_of(chunky, st.text(max_size=12).map(lambda s: s.replace("/", ""))), min_size=1, max_size=4)


def fuzz(case, ctx):
    """no name makes parsing fail; the parts are parts of the name"""
    from devpi_common import metadata as md
    metas = []
    for fn in case:
        fn = fn.rstrip("\n")
        base, ext = md.splitext_archive(fn)
        check_equal(base + ext, fn, "splitext_archive")
        n, v, e = md.splitbasename(fn, checkarch=False)
        check(n + v + e in fn.replace("-", "") or fn.startswith(n) and fn.endswith(e), "parts %r of %r" % ((n, v, e), fn))
        if v:
            check(fn.startswith("%s-%s" % (n, v)), "parts %r of %r" % ((n, v, e), fn))
            ctx.mark()
        m = md.BasenameMeta(fn)
        check_equal((m.name, m.version, m.ext), (n, v, e), "BasenameMeta of %r" % fn)
        metas.append(m)
        supported = ext.lower() in md.ALLOWED_ARCHIVE_EXTS
        try:
            md.splitbasename(fn)
            check(supported or ext == ".whl", "unsupported archive type of %r was accepted" % fn)
        except ValueError as err:
            check(not supported, "supported type of %r was rejected: %s" % (fn, err))
        check(md.is_archive_of_project(fn, "") == supported, "is_archive_of_project(%r)" % fn)
        if supported:
            pv, ft = md.get_pyversion_filetype(fn)
            check(isinstance(pv, str) and ft in ("sdist", "bdist_dumb", "bdist_wininst", "bdist_egg", "bdist_msi", "bdist_wheel"), "type of %r: %r" % (fn, (pv, ft)))
            ctx.label("supported")
    # sorting works and is consistent
    s = sorted(metas)
    for a, b in zip(s, s[1:]):
        check(a <= b and not b < a, "order of %r and %r" % (a.obj, b.obj))


def subs():
    return [Sub("parts", cases, run, quick=30000, thorough=600000, rule="composed file names of every archive kind; non-trivial if the name has dashes or dots, the version a local part, or it is no sdist"),
            Sub("total", fuzz_cases, fuzz, quick=15000, thorough=300000, rule="arbitrary names built from suspicious fragments; non-trivial if a version was found")]
