"""C27: the consistency checker reports exactly the damaged files."""
from vt import boot  # noqa: F401
import hashlib
import io
import os
import re
import shutil
import sqlite3
import stat
import sys
import tempfile
import zipfile
from urllib.parse import quote
from hypothesis import strategies as st
from vt.core import Sub, HarnessError, check, check_equal
from vt.gen import op, weighted

LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated server histories, generated damage to the stored files, and the output, exit code and side effects of the checker compared with a model of the damage"
ASSUMPTIONS = ["the checker runs on a server directory no server is using",
               "the last change before the damage is one without files: if a file of the very last change is lost the storage refuses to open and the checker stops with the name of that file",
               "beyond the ninth missing file the checker only counts, it does not name files"]

PROJECTS = ["pkg", "other-pkg", "Third.Pkg"]
VERSIONS = ["1.0", "1.1", "2.0rc1"]
INDEXES = ["u1/a", "u1/b"]
SIZES = [0, 1, 10, 700, 5000, 65535, 65536, 65537, 200001]


def blob(size, tag):
    """content that depends on every generated choice"""
    h = hashlib.sha256(repr(tag).encode()).digest()
    return (h * (size // 32 + 1))[:size]


def low(n):
    """mostly the first one, so that operations meet"""
    return weighted((2, st.just(0)), (1, st.integers(0, n)))


upload = op("up", i=low(1), p=low(2), v=low(2), kind=st.integers(0, 2), size=st.sampled_from(SIZES), tag=st.integers(0, 2))
ops = weighted(
    (6, upload),
    (1, op("many", i=low(1), n=st.integers(8, 13))),
    (2, op("docs", i=low(1), p=low(2), v=low(2), tag=st.integers(0, 2))),
    (1, op("tox", i=low(1), n=st.integers(0, 5), tag=st.integers(0, 3))),
    (1, op("delver", i=low(1), p=low(2), v=low(2))),
    (1, op("delproj", i=low(1), p=low(2))),
    (1, op("push", p=low(2), v=low(2))),
    (3, op("fetch", n=st.integers(0, 3))),
    (1, op("list")),
)
damage = st.fixed_dictionaries(dict(
    n=st.integers(0, 40), how=weighted((5, st.sampled_from(["delete", "truncate", "flip", "append", "empty", "same", "swap", "prepend"])), (1, st.just("delete"))),
    pos=st.floats(0, 1), bit=st.integers(0, 7)))
cases = st.fixed_dictionaries(dict(
    storage=weighted((3, st.none()), (1, st.just("sqlite_db_files"))),
    ops=st.lists(ops, min_size=3, max_size=9),
    damage=weighted((1, st.just([])), (4, st.lists(damage, min_size=1, max_size=5)), (1, st.just("all"))),
    checksum=weighted((3, st.just(True)), (1, st.just(False))),
    stray=st.booleans()))

MIRROR = [("mpkg", "mpkg-1.0.tar.gz", "sha256"), ("mpkg", "mpkg-1.1.tar.gz", "md5"), ("mpkg", "mpkg-1.2.zip", None), ("mpkg", "mpkg-1.3.zip", "sha512")]


def build(s, up, case, ctx):
    for u in ("u1",):
        s.create_user(u)
    s.create_index("u1/a", volatile=True)
    s.create_index("u1/b", volatile=True, bases=["u1/a"])
    s.create_index("u1/m", type="mirror", mirror_url=up.url + "/simple/", mirror_use_external_urls=False)
    for step in case["ops"]:
        k = step["op"]
        if k in ("up", "docs", "delver"):
            p, v, i = PROJECTS[step["p"]], VERSIONS[step["v"]], INDEXES[step["i"]]
        if k == "up":
            fn = ["%s-%s.tar.gz" % (p, v), "%s-%s.zip" % (p, v), "%s-%s-py3-none-any.whl" % (re.sub("[-.]", "_", p), v)][step["kind"]]
            r = s.upload(i, p, v, fn, blob(step["size"], step), user="u1")
        elif k == "many":
            for n in range(step["n"]):
                r = s.upload(INDEXES[step["i"]], "batch", "1.%d" % n, "batch-1.%d.zip" % n, blob(20, (step, n)), user="u1")
        elif k == "docs":
            f = io.BytesIO()
            with zipfile.ZipFile(f, "w") as zf:
                zf.writestr("index.html", "docs %s" % step["tag"])
            s.upload(i, p, v, p + ".zip", b"", user="u1", action="submit")
            r = s.upload(i, p, v, p + ".zip", f.getvalue(), user="u1", action="doc_upload")
        elif k == "tox":
            links = stage_links(s, INDEXES[step["i"]])
            if not links:
                continue
            r = s.request("POST", links[step["n"] % len(links)], b'{"testenvs": {}, "n": %d}' % step["tag"], user="u1")
        elif k == "delver":
            r = s.delete("/%s/%s/%s" % (i, p, v), user="u1")
        elif k == "delproj":
            r = s.delete("/%s/%s" % (INDEXES[step["i"]], PROJECTS[step["p"]]), user="u1")
        elif k == "push":
            r = s.request("PUSH", "/u1/a", ('{"name": "%s", "version": "%s", "targetindex": "u1/b"}' % (PROJECTS[step["p"]], VERSIONS[step["v"]])).encode(), user="u1")
        elif k == "fetch":
            title, fn, hash = MIRROR[step["n"]]
            r = s.get("/u1/m/+simple/%s/" % title, accept="application/vnd.pypi.simple.v1+json")
            check(r.status_code == 200, lambda: "mirror page -> %s" % r)
            url = [x["url"] for x in r.json["files"] if x["filename"] == fn]
            check(len(url) == 1, lambda: "mirror page misses %s: %s" % (fn, r.text))
            r = s.request("GET", "/u1/m/" + url[0].split("#")[0].replace("../../", ""))
            check(r.status_code == 200, lambda: "mirrored file -> %s" % r)
        else:
            r = s.get("/u1/m/+simple/mpkg/", accept="text/html")
        check(r.status_code < 500, lambda: "%s -> %s" % (step, r))
        ctx.label("%s:%s" % (k, r.status_code // 100))


def stage_links(s, index):
    res = []
    r = s.get("/%s?no_projects=" % index)
    for p in ("pkg", "other-pkg", "third-pkg", "batch"):
        r = s.get("/%s/%s" % (index, p), user="u1")
        if r.status_code != 200:
            continue
        for v in sorted(r.json["result"]):
            for ln in r.json["result"][v].get("+links", ()):
                if ln["rel"] == "releasefile" and ln["href"].split("://", 1)[1].split("/", 1)[1].startswith(index + "/"):
                    res.append("/" + ln["href"].split("://", 1)[1].split("/", 1)[1].split("#")[0])
    return res


# -- the stored files

class Disk:
    """files below +files of the server directory"""

    def __init__(self, path):
        self.root = os.path.join(path, "+files")

    def files(self):
        res = {}
        for root, dirs, files in os.walk(self.root):
            for n in files:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    res[os.path.relpath(p, self.root)] = f.read()
        return res

    def write(self, rel, content):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content)

    def delete(self, rel):
        p = os.path.join(self.root, rel)
        if not os.path.realpath(p).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep):
            raise HarnessError("not a scratch file: %s" % p)
        os.remove(p)


class Db:
    """files in the database"""

    def __init__(self, path):
        names = [n for n in os.listdir(path) if n.startswith(".sqlite") and not n.endswith(("-wal", "-shm"))]
        if len(names) != 1:
            raise HarnessError("databases: %s" % names)
        self.db = os.path.join(path, names[0])

    def execute(self, *a):
        c = sqlite3.connect(self.db)
        try:
            res = c.execute(*a).fetchall()
            c.commit()
            return res
        finally:
            c.close()

    def strip(self, p):
        return p.partition("+files/")[2] or p

    def files(self):
        self.names = {self.strip(p): p for p, in self.execute("SELECT path FROM files")}
        return {self.strip(p): bytes(d) for p, d in self.execute("SELECT path, data FROM files")}

    def write(self, rel, content):
        p = self.names.get(rel, rel)
        self.execute("INSERT OR REPLACE INTO files (path, size, data) VALUES (?, ?, ?)", (p, len(content), content))

    def delete(self, rel):
        self.execute("DELETE FROM files WHERE path = ?", (self.names[rel],))


def snapshot(d):
    res = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            res[os.path.relpath(os.path.join(root, n), d)] = "dir"
        for n in files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, d)
            if re.search(r"sqlite.*-(wal|shm|journal)$", n):
                continue
            if n.startswith(".sqlite"):
                c = sqlite3.connect(p)
                try:
                    res[rel] = {t: sorted(c.execute("SELECT * FROM %s" % t).fetchall(), key=repr) for t, in c.execute("SELECT name FROM sqlite_master WHERE type = 'table'")}
                finally:
                    c.close()
                continue
            s = os.lstat(p)
            with open(p, "rb") as f:
                # (the description of the node is written again with the same content)
                res[rel] = (stat.S_IMODE(s.st_mode), s.st_mtime_ns if "+files" in rel else None, f.read())
    return res


def run_fsck(path, opts):
    """devpi-fsck in a forked process: (exit code, output)"""
    import devpi_server.fsck  # noqa: F401
    import devpi_server.main  # noqa: F401
    out = tempfile.NamedTemporaryFile(prefix="fsck", delete=False)
    out.close()
    pid = os.fork()
    if pid == 0:
        rc = 97
        try:
            fd = os.open(out.name, os.O_WRONLY | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0), write_through=True, errors="backslashreplace")
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", 0), write_through=True, errors="backslashreplace")
            sys.argv = ["devpi-fsck", "--serverdir", path, *opts]
            import logging
            logging.disable(0)
            root = logging.getLogger()
            for h in list(root.handlers):
                root.removeHandler(h)
            from devpi_server.fsck import fsck
            try:
                rc = fsck() or 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc = 98
        finally:
            os._exit(rc)
    _, status = os.waitpid(pid, 0)
    with open(out.name, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    os.remove(out.name)
    return os.waitstatus_to_exitcode(status), text


def mentioned(text, rel):
    return re.search(r"(?<!\S)%s(?!\S)" % re.escape(rel), text) is not None


def damaged_content(content, d):
    how = d["how"]
    n = int(d["pos"] * max(0, len(content) - 1))
    if how == "truncate":
        return content[:n]
    if how == "flip":
        return content[:n] + bytes([content[n] ^ (1 << d["bit"])]) + content[n + 1:] if content else content
    if how == "append":
        return content + b"\0"
    if how == "prepend":
        return b"\0" + content
    if how == "empty":
        return b""
    if how == "swap":
        return content[::-1]
    return content


def run(case, ctx):
    from vt.server import Server
    from vt.upstream import File, Pypi
    up = Pypi()
    s = Server(storage=case["storage"], keep=True)
    base = os.path.dirname(s.path)
    try:
        up.projects = {"mpkg": [File(fn, blob(3000 + n, fn), hash=h) for n, (t, fn, h) in enumerate(MIRROR)]}
        build(s, up, case, ctx)
        r = s.send_json("PATCH", "/u1", dict(title="last change"), user="u1")
        check(r.status_code == 200, lambda: "modify user -> %s" % r)
        store = Db(s.path) if case["storage"] else Disk(s.path)
        files = store.files()
        nohash = set()
        for rel, content in files.items():
            r = s.request("GET", "/" + quote(rel))
            check(r.status_code == 200 and r.body == content, lambda: "stored file %s is not served: %r" % (rel, r))
            with s.keyfs.read_transaction():
                from vt import observe  # noqa: F401
                entry = s.xom.filestore.get_file_entry(rel)
                check(entry is not None, lambda: "no entry for %s" % rel)
                if not entry.best_available_hash_spec:
                    nohash.add(rel)
                    ctx.label("without-hash")
        s.close()
        for n in os.listdir(s.path):
            if n.endswith(("-wal", "-shm")):
                ctx.label("wal-left")
        expected, names = {}, sorted(files)
        new = dict(files)
        if case["damage"] == "all":
            todo = [dict(n=n, how="delete") for n in range(len(names))]
        else:
            todo = case["damage"] if names else []
        for d in todo:
            rel = names[d["n"] % len(names)]
            new[rel] = None if d["how"] == "delete" else damaged_content(files[rel], d)
            ctx.label("damage:" + d["how"])
        for rel, content in new.items():
            if content is None:
                store.delete(rel)
                expected[rel] = "missing"
            elif content != files[rel]:
                store.write(rel, content)
                if rel not in nohash:
                    expected[rel] = "differs"
        if case["stray"]:
            store.write("u1/a/+f/000/0000000000000/stray-1.0.zip", b"not recorded")
            store.write("u1/m/+f/111/1111111111111/mpkg-9.9.zip", b"")
        before = snapshot(base)
        opts = [] if case["checksum"] else ["--no-checksum"]
        if case["storage"]:
            opts += ["--storage", case["storage"]]
        if not case["checksum"]:
            expected = {k: v for k, v in expected.items() if v == "missing"}
        rc, text = run_fsck(s.path, opts)
        check("Traceback" not in text and rc in (0, 1), lambda: "the checker failed (%s): %s" % (rc, text[-1500:]))
        after = snapshot(base)
        if after != before:
            diff = [k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)]
            check(False, "the checker changed %s" % diff)
        check_equal(rc, 1 if expected else 0, "exit code of the checker with damage %r (output %s)" % (expected, text[-800:]))
        missing = sorted(k for k, v in expected.items() if v == "missing")
        for rel, what in expected.items():
            if what != "missing" or len(missing) <= 9:
                check(mentioned(text, rel), lambda: "%s file %s is not reported: %s" % (what, rel, text[-1500:]))
        if missing:
            check(sum(mentioned(text, m) for m in missing) >= min(9, len(missing)), lambda: "too few missing files named: %s" % text[-1500:])
            check(re.search(r"(?<!\d)%d(?!\d).*missing" % len(missing), text), lambda: "the number of missing files (%d) is not reported: %s" % (len(missing), text[-1500:]))
        others = set(names) - set(expected)
        with_stray = others | {"u1/a/+f/000/0000000000000/stray-1.0.zip", "u1/m/+f/111/1111111111111/mpkg-9.9.zip"}
        for rel in with_stray:
            check(not mentioned(text, rel), lambda: "intact or unrecorded file %s is reported: %s" % (rel, text[-1500:]))
        for rel in re.findall(r"(?<!\S)(\S+/\+[ef]/\S+)(?!\S)", text):
            check(rel in expected, lambda: "unknown file %s is reported: %s" % (rel, text[-1500:]))
        if len(missing) > 9:
            ctx.label("many-missing")
        if expected:
            ctx.mark()
        elif names:
            ctx.label("undamaged")
        ctx.label("files", len(names))
    finally:
        s.close()
        up.close()
        shutil.rmtree(base, ignore_errors=True)


def subs():
    return [Sub("damage", lambda: cases, run, quick=160, thorough=8000, shards=8,
                rule="server with 3-9 operations (uploads, documentation, test results, deletions, pushes, mirrored files with and without hashes) in both storages, 0-5 or all files deleted or altered, stray files; "
                     "non-trivial if at least one recorded file is damaged")]
