"""C04: a private index shows exactly what its history says."""
from vt import boot  # noqa: F401
from hypothesis import strategies as st
from vt.core import Sub
from vt import ops

LEVEL = "exploration"
TECHNIQUE = "stateful model-based generation of request histories against a reference model, compared through every HTTP view"
ASSUMPTIONS = ["log timestamps and the server chosen names of test results are not compared",
               "a 4xx answer to an operation on a missing index may be 401, 403 or 404"]


def cases():
    return st.fixed_dictionaries(dict(ops=st.lists(ops.op_strategy(), min_size=12, max_size=30), storage=st.sampled_from([None, None, "sqlite_db_files"])))


def run(case, ctx):
    from vt.server import Server
    with Server(start=(), storage=case["storage"]) as s:
        m = ops.Model(s)
        m.setup()
        for n, op in enumerate(case["ops"]):
            m.run(op)
            if m.touched and n % 2:
                m.compare_index(m.touched, files=False)
        m.compare_all()
        for k, v in m.outcomes.items():
            ctx.label(k, v)
        kinds = {k for k in m.outcomes if k.endswith(":ok")}
        if "upload:ok" in kinds and len(kinds) >= 6:
            ctx.mark()


ALIASES = [   # one file name accepted for two releases
    (("pkg", "1.0"), ("pkg", "1"), "pkg-1.0.tar.gz"),
    (("pkg", "1.0"), ("pkg", "0"), "pkg-1.0.zip"),
    (("foo", "1.0"), ("foo-bar", "1.0"), "foo-bar-1.0.tar.gz"),
    (("foo-bar", "2-1.0"), ("foo-bar", "1.0"), "foo-bar-2-1.0.tar.gz"),
]


def alias_cases(tier):
    for a, b, fn in ALIASES:
        for same in (True, False):
            for what in ("version", "project", "file"):
                for first in (0, 1):
                    yield dict(rel=[list(a), list(b)], fn=fn, same=same, what=what, first=first)


def alias_run(case, ctx):
    """deleting one release leaves the files of every other release alone"""
    from urllib.parse import urlsplit
    from vt.server import Server
    from vt.core import check
    with Server(start=()) as s:
        s.create_user("u1")
        s.create_index("u1/a")
        for i, (n, v) in enumerate(case["rel"]):
            r = s.upload("u1/a", n, v, case["fn"], b"same" if case["same"] else b"%d" % i, user="u1")
            check(r.status_code == 200, "upload answered %s" % r.status_code)
        n, v = case["rel"][case["first"]]
        on, ov = case["rel"][1 - case["first"]]
        if case["what"] == "project" and on == n:
            return
        vd = s.get("/u1/a/%s/%s" % (n, v)).json["result"]
        odd = s.get("/u1/a/%s/%s" % (on, ov)).json["result"]
        url = {"version": "/u1/a/%s/%s" % (n, v), "project": "/u1/a/%s" % n, "file": vd["+links"][0]["href"]}[case["what"]]
        shared = vd["+links"][0]["href"] == odd["+links"][0]["href"]
        if case["what"] == "file" and shared:
            return      # the request addresses the file of both
        r = s.delete(url, user="u1")
        check(r.status_code == 200, "delete answered %s" % r.status_code)
        ctx.mark("shared" if shared else "separate")
        left = s.get("/u1/a/%s/%s" % (on, ov))
        check(left.status_code == 200, "the other release is gone")
        f = s.get(urlsplit(left.json["result"]["+links"][0]["href"]).path, accept=None)
        check(f.status_code == 200, lambda: "after deleting %s %s the file %s of %s %s is answered %s" % (n, v, case["fn"], on, ov, f.status_code),
              key="shared-file-entry" if shared else None)


def subs():
    from vt.core import Exhaustive
    return [
        Exhaustive("alias", alias_cases, alias_run, shards=2, rule="one file name uploaded for two releases, one of them deleted; all are non-trivial that reach the delete"),
        Sub("history", cases, run, quick=480, thorough=20000, shards=8,
                rule="12-30 requests over 2 users, 3 indexes, 4 projects with equivalent spellings, 5 versions, 4 file types; non-trivial if an upload and "
                     "at least 5 other kinds of operation were accepted")]
