"""C18: archives round-trip and extraction stays inside the target directory."""
from vt import boot  # noqa: F401
import io
import os
import shutil
import stat
import tarfile
import tempfile
import zipfile
from hypothesis import strategies as st
from vt.core import Sub, Violation, check, check_equal
from vt.gen import weighted

LEVEL = "exploration"
TECHNIQUE = "property-based testing: round-trip of generated trees, and extraction of crafted archives inside a deep scratch nest whose surroundings are compared before and after"
ASSUMPTIONS = ["member names climb at most four levels and absolute names point into the scratch nest, so that a failing extraction can reach nothing real",
               "trees have names of at most 40 characters and no symbolic links when they are packed"]

NAMES = ["a", "b", "index.html", "x.txt", "é", "sp ace", ".hidden", "..x", "x..", "...", "-", "#", "a%2fb", "Foo", "foo", "_", "a.b", "con", "~", "$x", "'q\"", "long" * 8, "+x"]
name = weighted((6, st.sampled_from(NAMES)), (1, st.text("abcXYZ09 .-_éß漢'\"&<>%#?*[]", min_size=1, max_size=8).filter(lambda s: s not in (".", ".."))))
content = st.one_of(st.binary(max_size=30), st.integers(0, 70000).map(lambda n: bytes(n % 251 for n in range(n % 3000)) * (n % 5)))
tree = st.recursive(st.dictionaries(name, content.map(lambda b: b.hex()), max_size=4),
                    lambda sub: st.dictionaries(name, st.one_of(content.map(lambda b: b.hex()), sub), max_size=4), max_leaves=12)


def flatten(t, prefix=""):
    """{path: bytes or None for an empty directory}"""
    res = {}
    for k, v in t.items():
        if isinstance(v, dict):
            sub = flatten(v, prefix + k + "/")
            res.update(sub if sub else {prefix + k + "/": None})
        else:
            res[prefix + k] = bytes.fromhex(v)
    return res


def write(d, t):
    for k, v in t.items():
        p = os.path.join(d, k)
        if isinstance(v, dict):
            os.mkdir(p)
            write(p, v)
        else:
            with open(p, "wb") as f:
                f.write(bytes.fromhex(v))


def snapshot(d, skip=None):
    res = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            if skip is not None and (p == skip or p.startswith(skip + os.sep)):
                continue
            s = os.lstat(p)
            rel = os.path.relpath(p, d)
            if stat.S_ISLNK(s.st_mode):
                res[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                res[rel] = ("dir",)
            else:
                with open(p, "rb") as f:
                    res[rel] = ("file", s.st_nlink, f.read())
    return res


def leaves(d):
    res = {}
    for root, dirs, files in os.walk(d):
        for n in files:
            with open(os.path.join(root, n), "rb") as f:
                res[os.path.relpath(os.path.join(root, n), d)] = f.read()
        if not dirs and not files and root != d:
            res[os.path.relpath(root, d) + "/"] = None
    return res


def tar_of(flat, how):
    f = io.BytesIO()
    with tarfile.open(mode="w:" + how, fileobj=f) as tf:
        for k, v in flat.items():
            ti = tarfile.TarInfo(k.rstrip("/") if v is None else k)
            if v is None:
                ti.type = tarfile.DIRTYPE
                ti.mode = 0o755
                tf.addfile(ti)
            else:
                ti.size = len(v)
                tf.addfile(ti, io.BytesIO(v))
    return f.getvalue()


def as_bytes_tree(t):
    return {k: as_bytes_tree(v) if isinstance(v, dict) else bytes.fromhex(v) for k, v in t.items()}


def roundtrip(case, ctx):
    from devpi_common.archive import Archive, zip_dict, zip_dir
    t = case["tree"]
    flat = flatten(t)
    if len(flat) > 1 or any("/" in k for k in flat):
        ctx.mark()
    scratch = tempfile.mkdtemp(prefix="c18")
    try:
        src = os.path.join(scratch, "src")
        os.mkdir(src)
        write(src, t)
        dest = os.path.join(scratch, "x.zip")
        check(zip_dir(src, dest) is None, "zip_dir with a destination")
        with open(dest, "rb") as f:
            fromdest = f.read()
        blobs = dict(zip_dir=zip_dir(src), zip_dir_dest=fromdest, zip_dict=zip_dict(as_bytes_tree(t)), tar=tar_of(flat, ""), targz=tar_of(flat, "gz"), tarbz2=tar_of(flat, "bz2"))
        check_equal(leaves(src), flat, "the packed tree itself (must not change)")
        for how, blob in blobs.items():
            path = os.path.join(scratch, "arch")
            with open(path, "wb") as f:
                f.write(blob)
            for source in (io.BytesIO(blob), path):
                with Archive(source) as a:
                    names = a.namelist()
                    check_equal(sorted(n.rstrip("/") for n in names), sorted(n.rstrip("/") for n in flat), "names in %s archive" % how)
                    for n, v in flat.items():
                        if v is not None:
                            check_equal(a.read(n), v, "content of %r in %s" % (n, how))
                            with a.getfile(n) as f:
                                check_equal(f.read(), v, "file of %r in %s" % (n, how))
                    missing = "no/such/member"
                    try:
                        a.read(missing)
                        raise Violation("reading a missing member of %s returned" % how)
                    except a.FileNotExist:
                        pass
                    out = os.path.join(scratch, "out")
                    os.mkdir(out)
                    before = snapshot(scratch, out)
                    a.extract(out)
                    check_equal(leaves(out), flat, "extracted tree of %s" % how)
                    check_equal(snapshot(scratch, out), before, "things outside the target after extracting %s" % how)
                    shutil.rmtree(out)
                    if isinstance(source, str):
                        a.extract(os.path.join(scratch, "new"))
                        check_equal(leaves(os.path.join(scratch, "new")) if flat else {}, flat, "extracted into a new directory")
                        shutil.rmtree(os.path.join(scratch, "new"), ignore_errors=True)
            ctx.label(how)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def tree_cases():
    return st.fixed_dictionaries(dict(tree=tree))


PARTS = ["..", ".", "a", "b", "a", "b", "c", "out", "outside", "x.txt", "", "target", "...", "..a"]
member_name = st.one_of(
    st.tuples(st.lists(st.sampled_from(PARTS), min_size=1, max_size=5).filter(lambda p: p.count("..") <= 4), st.sampled_from(["/", "/", "/", "\\", "//"]), st.booleans()).map(
        lambda t: t[1].join(t[0]) + ("/" if t[2] else "")),
    st.lists(st.sampled_from(["a", "b", "c", "x.txt"]), min_size=1, max_size=3).map("/".join),
    st.sampled_from(["@ABS@/outside/victim", "@ABS@/n1/newfile", "@TARGET@/in", "@TARGET@/../sibling", "@TARGET@x/evil", "a/../../target-evil/x", "../target-evil/new", "../targetx", "//@ABS@/outside/victim"]))
link_target = st.sampled_from(["a", "b", "x.txt", "..", "../..", ".", "a", "b", "../outside", "../../outside/victim", "@ABS@/outside", "@ABS@/outside/victim", "@TARGET@", "x.txt", "/nonexistent-c18", "../target-evil"])


@st.composite
def crafted(draw):
    kind = draw(st.sampled_from(["zip", "zip", "tar", "tar", "tar.gz"]))
    members = []
    for _ in range(draw(st.integers(1, 6))):
        typ = "file" if kind == "zip" and draw(st.integers(0, 5)) else draw(st.sampled_from(["file", "file", "sym", "sym", "hard", "dir", "fifo", "chr"]))
        members.append(dict(name=draw(member_name), type=typ, target=draw(link_target), mode=draw(st.sampled_from([0o644, 0o777, 0o4755, 0o000]))))
    # writing through a link that was created before
    if draw(st.booleans()):
        n = draw(st.sampled_from(["l", "a"]))
        members.append(dict(name=n, type="sym", target=draw(link_target), mode=0o777))
        members.append(dict(name=n + draw(st.sampled_from(["/x", "", "/victim", "/../y"])), type="file", target="", mode=0o644))
    return dict(kind=kind, members=members, pre=draw(st.sampled_from([None, None, "dir", "file"])), rel=draw(st.booleans()))


def nest():
    """scratch/n1/../n6 with things to be protected around the target"""
    scratch = tempfile.mkdtemp(prefix="c18")
    d = scratch
    for i in range(1, 7):
        d = os.path.join(d, "n%d" % i)
        os.mkdir(d)
        for n in ("outside", "target-evil"):
            os.mkdir(os.path.join(d, n))
            with open(os.path.join(d, n, "victim"), "wb") as f:
                f.write(b"precious")
        for n in ("x.txt", "a", "victim"):
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"precious")
    os.mkdir(os.path.join(scratch, "outside"))
    with open(os.path.join(scratch, "outside", "victim"), "wb") as f:
        f.write(b"precious")
    return scratch, os.path.join(d, "target")


def build(case, scratch, target):
    def sub(s):
        return s.replace("@ABS@", scratch).replace("@TARGET@", target)
    f = io.BytesIO()
    if case["kind"] == "zip":
        with zipfile.ZipFile(f, "w") as zf:
            for m in case["members"]:
                n = sub(m["name"])
                zi = zipfile.ZipInfo("x")
                zi.filename = n
                zi.external_attr = (m["mode"] | (stat.S_IFLNK if m["type"] == "sym" else stat.S_IFREG)) << 16
                zf.writestr(zi, b"" if n.endswith("/") else sub(m["target"]).encode() if m["type"] == "sym" else b"evil")
    else:
        with tarfile.open(mode="w:" + case["kind"].partition(".")[2], fileobj=f) as tf:
            for m in case["members"]:
                ti = tarfile.TarInfo(sub(m["name"]))
                ti.mode = m["mode"]
                ti.type = dict(file=tarfile.REGTYPE, sym=tarfile.SYMTYPE, hard=tarfile.LNKTYPE, dir=tarfile.DIRTYPE, fifo=tarfile.FIFOTYPE, chr=tarfile.CHRTYPE)[m["type"]]
                if m["type"] in ("sym", "hard"):
                    ti.linkname = sub(m["target"])
                if m["type"] == "file":
                    ti.size = 4
                    tf.addfile(ti, io.BytesIO(b"evil"))
                else:
                    tf.addfile(ti)
    return f.getvalue()


def containment(case, ctx):
    from devpi_common.archive import Archive
    scratch, target = nest()
    cwd = os.getcwd()
    try:
        blob = build(case, scratch, target)
        if case["pre"] == "dir":
            os.mkdir(target)
        elif case["pre"] == "file":
            os.makedirs(os.path.join(target, "a"))
        to = target
        if case["rel"]:
            os.chdir(os.path.dirname(target))
            to = "target"
        before = snapshot(scratch, target)
        names = [m["name"] for m in case["members"]]
        if any(".." in n.split("/") or "@" in n for n in names) or any(m["type"] in ("sym", "hard") for m in case["members"]):
            ctx.mark()
        err = None
        try:
            with Archive(io.BytesIO(blob)) as a:
                a.extract(to)
        except Exception as e:   # refused, or damaged: fine as long as nothing escaped
            err = e
        ctx.label("refused" if err is not None else "extracted")
        after = snapshot(scratch, target)
        if after != before:
            ch = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
            raise Violation("extracting %s members %r (error: %r) changed %r outside the target" % (case["kind"], names, err, ch))
        # nothing inside refers to the outside
        if os.path.isdir(target):
            real = os.path.realpath(target)
            for root, dirs, files in os.walk(target):
                for n in dirs + files:
                    p = os.path.join(root, n)
                    if os.path.islink(p):
                        ctx.label("link")
                        check(os.path.realpath(p) == real or os.path.realpath(p).startswith(real + os.sep), "extracted link %r points outside to %r" % (os.path.relpath(p, target), os.readlink(p)))
                    else:
                        s = os.lstat(p)
                        check(stat.S_ISDIR(s.st_mode) or stat.S_ISREG(s.st_mode), "special file %r was extracted" % n)
            check(not os.path.islink(target), "the target became a link")
        # archives whose members all stay inside are extracted completely
        plain = all(m["type"] == "file" and m["name"] and all(p not in ("", ".", "..") and "\\" not in p for p in m["name"].split("/")) and "@" not in m["name"] for m in case["members"])
        if plain and len({n for n in names}) == len(names) and not any(n != o and o.startswith(n + "/") for n in names for o in names) and case["pre"] != "file":
            ctx.label("plain")
            check(err is None, "a harmless archive %r was refused: %r" % (names, err))
            check_equal(sorted(leaves(target)), sorted(names), "extracted names")
    finally:
        os.chdir(cwd)
        os.system("chmod -R u+rwX '%s'" % scratch)
        shutil.rmtree(scratch, ignore_errors=True)


def not_archives():
    return st.one_of(st.binary(max_size=60), tree.map(lambda t: tar_of(flatten(t), "")[:-1]), st.tuples(tree, st.integers(0, 300), st.integers(0, 255)).map(damaged)).map(lambda b: b.hex())


def damaged(t):
    from devpi_common.archive import zip_dict
    b = bytearray(zip_dict(as_bytes_tree(t[0])))
    if b:
        b[t[1] % len(b)] ^= t[2] or 1
    return bytes(b)


def garbage(case, ctx):
    """opening something that is no archive fails in the documented way and closes the file"""
    from devpi_common.archive import Archive, UnsupportedArchive
    f = io.BytesIO(bytes.fromhex(case))
    ctx.mark()
    try:
        a = Archive(f)
    except UnsupportedArchive:
        ctx.label("unsupported")
        check(f.closed, "the file was not closed")
        return
    except (ValueError, NotImplementedError, UnicodeDecodeError):
        ctx.label("damaged")
        check(f.closed, "the file was not closed")
        return
    with a:
        a.namelist()
    check(f.closed, "the file was not closed")


def subs():
    return [Sub("roundtrip", tree_cases, roundtrip, quick=1200, thorough=30000, rule="generated trees with odd names, empty directories and files; non-trivial if nested or several files"),
            Sub("containment", crafted, containment, quick=4000, thorough=100000, rule="crafted zip and tar members (parents, absolute, links, special files, sibling prefixes); non-trivial if a member climbs or links"),
            Sub("garbage", not_archives, garbage, quick=1500, thorough=40000, rule="random, truncated and bit-flipped input")]
