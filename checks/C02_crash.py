"""C02: process death at any point of an operation leaves the state before or after it."""
from vt import boot  # noqa: F401
import copy
import json
import os
import re
import shutil
import tempfile
from urllib.parse import quote
from hypothesis import strategies as st
from vt.core import Sub, check, Violation, HarnessError
from vt import ops, crash, observe
from vt.gen import weighted

LEVEL = "fault-enumeration"
TECHNIQUE = ("generated request histories; for one operation every write-side file system and SQL statement is a crash point, executed in a forked child that "
             "exits there, then restart and comparison with the states before and after")
ASSUMPTIONS = ["process death, not power loss: data handed to the operating system is kept, data in user space buffers is lost",
               "SQLite's own commit is atomic",
               "left-over temporary files that nothing refers to are not a violation"]


# without it SQLite leaves a different journal behind
os.environ["VERIF_SQLITE_SYNC"] = "1"
PRELOAD = crash.preload


NORM = re.compile(r"toxresult-[^\"/]*?(\.json)?(?=[\"/])")
TIMES = re.compile(r'"(when|created|modified|last_modified|pwhash|pwsalt)": ("[^"]*"|\[[^\]]*\]|null)')


def state(path, storage):
    from vt.server import Server
    with Server(path=path, storage=storage, start=(), app=False) as s:
        _serial, kv = observe.dump_kv(s.xom)
        return fingerprint(kv), missing_files(s, kv)


def fingerprint(kv):
    text = json.dumps({k: v for k, v in kv.items()}, sort_keys=True, default=repr, indent=0)
    return TIMES.sub(r'"\1": 0', NORM.sub("toxresult", text))


def missing_files(s, kv):
    """recorded files that are not on disk with the recorded hash"""
    import hashlib
    bad = []
    with s.keyfs.get_connection() as conn:
        for relpath, (keyname, val) in kv.items():
            if keyname not in ("STAGEFILE", "PYPIFILE_NOMD5") or not val:
                continue
            hash_spec = val.get("hash_spec") or (val.get("hashes") and "sha256=" + val["hashes"]["sha256"])
            if not hash_spec or not val.get("last_modified"):
                continue
            algo, _, want = hash_spec.partition("=")
            p = "+files/" + relpath
            if not conn.io_file_exists(p):
                bad.append((relpath, "missing"))
            elif hashlib.new(algo, conn.io_file_get(p)).hexdigest() != want:
                bad.append((relpath, "wrong content"))
    return bad


def in_child(fn):
    """run fn in a forked child, returns (exit status, json result)"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                out = dict(ok=fn())
                code = 0
            except Violation as v:
                out = dict(violation=v.msg, key=v.key)
                code = 1
            except BaseException as e:
                import traceback
                out = dict(error="".join(traceback.format_exception(e)))
                code = 2
            os.write(w, json.dumps(out).encode()[:60000])
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(stt)
    out = json.loads(data) if data else {}
    if "error" in out:
        raise HarnessError(out["error"])
    if "violation" in out:
        raise Violation(out["violation"], key=out["key"])
    return code, out.get("ok")


def attach(model, path, storage, tokens):
    from vt.server import Server
    s = Server(path=path, storage=storage, start=())
    s.tokens = dict(tokens)
    model.server = s
    return s


def cases():
    setup = ops.op_strategy(manage=False)
    last = weighted((2, ops.op_strategy()), (1, ops.op_strategy(ix=st.integers(0, 1), manage=False, tox=False, submit=False)))
    return st.fixed_dictionaries(dict(
        ops=st.lists(setup, min_size=4, max_size=10), last=st.lists(last, min_size=2, max_size=3),
        storage=weighted((4, st.none()), (1, st.just("sqlite_db_files"))),
        second=st.integers(0, 6), every=st.booleans()))


def choose(trace, every):
    """all crash points, or all but some of the many inside SQLite's commit"""
    points = list(range(1, len(trace) + 1))
    if every:
        return points
    sql = [i for i in points if "/.sqlite" in trace[i - 1]]
    keep = set(sql[:2] + sql[-2:] + sql[2:-2:5])
    # the switch from writing the journal to writing the database
    for a, b in zip(sql, sql[1:]):
        if trace[a - 1] != trace[b - 1]:
            keep |= {a, b}
    return [i for i in points if i in keep or i not in sql]


def run(case, ctx):
    from vt.server import Server
    storage = case["storage"]
    base = tempfile.mkdtemp(prefix="crash")
    try:
        s = Server(start=(), storage=storage)
        src = s.path
        s.own_path = False
        m = ops.Model(s)
        m.setup(volatile=(True, True, False))
        for op in case["ops"]:
            m.run(op)
        for n, op in enumerate(case["last"]):
            for name in m.index_names:
                ix = m.get(name)
                for p in (ix.projects if ix else ()):
                    m.learn(name, p)
            tokens = dict(s.tokens)
            s.close()
            if crashed_op(case, ctx, m, op, src, base, tokens, n):
                return
            s = attach(m, src, storage, tokens)
            m.run(op)
        s.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(os.path.dirname(src), ignore_errors=True)


def crashed_op(case, ctx, m, op, src, base, tokens, n):
    storage = case["storage"]
    work = None

    def fresh():
        # never reuse a path: this process may still have the database of an older copy open
        nonlocal work
        if work is not None:
            shutil.rmtree(work, ignore_errors=True)
        work = tempfile.mkdtemp(dir=base) + "/s"
        shutil.copytree(src, work)
        os.chmod(work, 0o700)

    def execute(target):
        mm = copy.copy(m)
        mm.users = copy.deepcopy(m.users)
        mm.gone = set(m.gone)
        s = attach(mm, work, storage, tokens)
        crash.INJ.arm(work, target)
        mm.run(op)
        out = dict(n=crash.INJ.count, trace=crash.INJ.trace, serial=s.serial)
        crash.INJ.disarm()
        s.close()
        return out

    before, bad = state(src, storage)
    check(not bad, lambda: "before any crash: %r" % bad)
    fresh()
    code, out = in_child(lambda: execute(None))
    if out is None or out["n"] == 0:
        return False
    after, bad = state(work, storage)
    check(not bad, lambda: "after %r: recorded files %r" % (op, bad))
    total = out["n"]
    trace = out["trace"]
    ctx.label("op:" + op["op"])
    if total > 5 and before != after:
        ctx.mark()
    points = choose(trace, case["every"] and os.environ.get("VERIF_TIER") != "quick")
    ctx.label("crash-points", len(points))
    for target in points:
        fresh()
        code, _ = in_child(lambda: execute(target))
        check(code in (crash.EXIT, 0), "child exit %s" % code)
        where = "death before %r (%d of %d) of %r" % (trace[target - 1], target, total, op)
        if case["second"] and target % 2 == 0:
            # die again during the restart
            def restart():
                crash.INJ.arm(work, case["second"])
                from vt.server import Server
                Server(path=work, storage=storage, start=()).close()
                crash.INJ.disarm()
            if in_child(restart)[0] == crash.EXIT:
                ctx.label("second-crash")

        got, bad = state(work, storage)
        check(got in (before, after), lambda: "%s: restarted state is neither the one before nor the one after: %s" % (where, delta(before, after, got)), key="mixed")
        check(not bad, lambda: "%s: recorded files %r" % (where, bad), key="file")
        done = got == after
        ctx.label("after" if done else "before")

        def verify():
            mm = copy.copy(m)
            mm.users = copy.deepcopy(m.users)
            mm.gone = set(m.gone)
            s = attach(mm, work, storage, tokens)
            name = mm.ix(op["ix"]) if "ix" in op else mm.index_names[0]
            touched = {name, mm.ix(op["to"]) if "to" in op else name}
            if before != after and done:
                # bring the model to the state after without asking the server
                mm.server = Ack(s)
                mm.learn = lambda *a: None      # the links are known already
                mm.request(op)
                del mm.learn
                mm.server = s
            for x in touched:
                mm.compare_index(x)
            for h in sorted(mm.gone - mm.live()):
                r = s.get(quote(h), accept=None)
                check(r.status_code in (404, 410), "%s: %s answered %s" % (where, h, r.status_code))
            if not done:
                mm.run(op)
                for x in touched:
                    mm.compare_index(x)
            for x in touched:
                mm.run(dict(op="upload", ix=mm.index_names.index(x), p=3, v=2, t=1, c=2, sp=0, meta={}))
                mm.compare_index(x)
            s.close()
        try:
            in_child(verify)
        except Violation as v:
            raise Violation("%s: %s" % (where, v.msg), key=v.key)
    return False


class Ack:
    """stands in for the server while only the model is advanced"""

    def __init__(self, server):
        self._s = server

    def __getattr__(self, name):
        return getattr(self._s, name)

    def _ack(self, *a, **kw):
        class R:
            status_code = 200
            text = ""
            json = {}
        return R()

    create_user = create_index = post_form = send_json = delete = _ack

    def request(self, method, *a, **kw):
        if method == "GET":
            return self._s.request(method, *a, **kw)
        return self._ack()


def delta(before, after, got):
    b, a, g = (json.loads(x) for x in (before, after, got))
    return "vs before %s; vs after %s" % (observe.diff(b, g, limit=3), observe.diff(a, g, limit=3))


def subs():
    return [Sub("points", cases, run, quick=40, thorough=2400, shards=8,
                rule="4-10 requests of setup, then 2-3 requests each killed at every write-side operation; non-trivial if an operation has more than 5 "
                     "crash points and changes the state", case_timeout=300)]
