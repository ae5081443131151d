"""C10: a replica converges to the primary's exact history and files."""
from vt import boot  # noqa: F401
import hashlib
import os
import random
from urllib.parse import quote
from hypothesis import strategies as st
from vt.core import Sub, HarnessError, check, check_equal
from vt.gen import weighted
from vt import ops

LEVEL = "exploration"
TECHNIQUE = ("stateful generation of histories of a primary interleaved with the steps of its replica over a faulty connection (fault injection, restarts, "
             "repeated delivery), compared with the primary's own history and files")
ASSUMPTIONS = ["the steps of the replica's threads are run one at a time; the primary answers a request completely before it is delivered in pieces",
               "orphaned files left on disk by a replica stopped before it processed a deletion are not counted, they are never served",
               "the connection is eventually reliable"]

_frac = st.floats(0, 1, exclude_max=True).map(lambda f: round(f, 3))
fault = weighted(
    (6, st.none()),
    (1, st.fixed_dictionaries(dict(k=st.just("drop"), when=st.sampled_from(["before", "after"])))),
    (3, st.fixed_dictionaries(dict(k=st.just("cut"), at=_frac, silent=st.booleans()))),
    (1, st.fixed_dictionaries(dict(k=st.just("status"), status=st.sampled_from([500, 502, 503, 404, 401])))),
)
change_fault = weighted((5, fault), (2, st.fixed_dictionaries(dict(k=st.just("again"), back=st.integers(1, 4)))),
                        (1, st.fixed_dictionaries(dict(k=st.just("skip"), n=st.integers(1, 2)))),
                        (1, st.just(dict(k="twice"))))
file_fault = weighted((5, fault), (2, st.fixed_dictionaries(dict(k=st.just("corrupt"), at=_frac))),
                      (1, st.just(dict(k="other"))), (1, st.just(dict(k="longer"))), (1, st.just(dict(k="empty"))))
step = weighted(
    (14, ops.op_strategy(push=True).map(lambda o: dict(s="op", op=o))),
    (3, st.fixed_dictionaries(dict(s=st.just("tick"), fault=st.lists(change_fault, min_size=1, max_size=2)))),
    (4, st.fixed_dictionaries(dict(s=st.just("file"), n=st.integers(1, 6), retry=st.booleans(), fault=file_fault))),
    (2, st.fixed_dictionaries(dict(s=st.just("get"), which=st.integers(0, 30), fault=file_fault, head=st.booleans()))),
    (1, st.fixed_dictionaries(dict(s=st.just("restart")))),
    (1, st.fixed_dictionaries(dict(s=st.just("again"), which=st.integers(0, 30)))),
)


def cases():
    return st.fixed_dictionaries(dict(
        steps=st.lists(step, min_size=10, max_size=40), streaming=st.booleans(), chunk=st.sampled_from([None, None, 1, 7, 100, 5000]),
        batch=st.sampled_from([None, None, 0, 300, 3000]), storage=st.sampled_from([None, None, "sqlite_db_files"]),
        search=st.sampled_from([None, None, None, "good", "bad"])))


_front = []


def worker_setup():
    from vt.replica import Front
    _front.append(Front())


def transform(fault, primary, streaming, multi):
    """the Plan for one response of the change log"""
    from vt.replica import Plan
    from devpi_server.fileutil import dumps, loads
    if fault is None:
        return Plan()
    k = fault["k"]
    if k == "drop":
        return Plan(drop=fault["when"])
    if k == "cut":
        return Plan(cut=fault["at"], silent=fault["silent"])
    if k == "status":
        return Plan(status=fault["status"])

    def body(data):
        # a delivery that repeats, skips or starts early
        if not multi or not data:
            return data
        if streaming:
            items = split_stream(data)
        else:
            items = loads(data)
        if not items:
            return data
        first = items[0][0]
        if k == "again":
            lo = max(0, first - fault["back"])
            extra = []
            with primary.keyfs.get_connection() as conn:
                for serial in range(lo, first):
                    raw = conn.get_raw_changelog_entry(serial)
                    extra.append((serial, raw if streaming else loads(raw)[0]))
            items = extra + list(items)
        elif k == "twice":
            items = [x for x in items for _ in (0, 1)]
        elif k == "skip":
            items = list(items)[fault["n"]:]
        if streaming:
            return b"".join(dumps(s) + raw for s, raw in items)
        return dumps(list(items))
    return Plan(body=body)


def split_stream(data):
    from devpi_server.fileutil import dumps, load
    import io
    f = io.BytesIO(data)
    out = []
    while f.tell() < len(data):
        serial = load(f)
        start = f.tell()
        load(f)
        out.append((serial, data[start:f.tell()]))
    assert b"".join(dumps(s) + r for s, r in out) == data
    return out


def file_plan(fault):
    from vt.replica import Plan
    if fault is None:
        return Plan()
    k = fault["k"]
    if k == "drop":
        return Plan(drop=fault["when"])
    if k == "cut":
        return Plan(cut=fault["at"], silent=fault["silent"])
    if k == "status":
        return Plan(status=fault["status"])
    if k == "corrupt":
        return Plan(corrupt=fault["at"])
    return Plan(body={"other": lambda d: b"other content", "longer": lambda d: d + b"\0", "empty": lambda d: b""}[k])


class World:
    def __init__(self, case, ctx):
        from vt.replica import Primary
        self.case, self.ctx = case, ctx
        self.front = _front[0]
        self.primary = Primary(self.front, changes_size=case["batch"], start=(), storage=case["storage"])
        self.front.chunk = case["chunk"]
        self.front.planner = self.planner
        self.change_faults, self.file_fault = [], None
        self.hit = set()
        self.replica = None
        self.last = -1
        self.path = None
        self.search = None
        self.restarts = 0

    def planner(self, method, path, headers):
        if path.startswith("/+changelog/"):
            if self.change_faults:
                f = self.change_faults.pop(0)
                if f:
                    self.hit.add("change:" + f["k"])
                return transform(f, self.primary, self.case["streaming"], path.partition("?")[0].endswith("-"))
        elif method == "GET" and "/+f/" in path and self.file_fault:
            self.hit.add("file:" + self.file_fault["k"])
            return file_plan(self.file_fault)
        return None

    def start(self):
        from vt.replica import Replica
        opts = [] if self.case["streaming"] else ["--no-replica-streaming"]
        if self.search:
            opts += ["--replica-file-search-path", self.search]
        self.replica = Replica(self.front, opts=opts, storage=self.case["storage"], path=self.path, keep=True)
        self.path = self.replica.path
        check_equal(self.replica.serial if self.last >= 0 else -1, self.last, "the serial of the restarted replica")

    def close(self):
        import shutil
        if self.replica is not None:
            self.replica.close()
        self.primary.close()
        self.front.reset(None)
        if self.path:
            shutil.rmtree(os.path.dirname(self.path), ignore_errors=True)
        if self.search:
            shutil.rmtree(self.search, ignore_errors=True)

    def tick(self, faults=()):
        self.change_faults = list(faults)
        self.replica.tick()
        self.change_faults = []
        now = self.replica.serial
        check(self.last <= now <= self.primary.serial, lambda: "the replica went from serial %s to %s while the primary is at %s" % (self.last, now, self.primary.serial))
        self.compare_changes(self.last + 1, now)
        self.last = now

    def compare_changes(self, lo, hi):
        from devpi_server.fileutil import loads
        for serial in range(lo, hi + 1):
            with self.primary.keyfs.get_connection() as pc, self.replica.keyfs.get_connection() as rc:
                want = loads(pc.get_raw_changelog_entry(serial))[0]
                got = loads(rc.get_raw_changelog_entry(serial))[0]
            check_equal(got, want, "the changes of serial %s" % serial)

    def hrefs(self):
        """paths of files known to the primary: {path: sha256}"""
        out = {}
        for key, serial, val in current(self.primary):
            if key.name == "STAGEFILE" and val.get("last_modified"):
                out["/" + quote(key.relpath)] = (key.relpath, val)
        return out

    def get(self, which, fault, head):
        files = sorted(self.hrefs().items())
        if not files:
            return
        path, (relpath, val) = files[which % len(files)]
        self.file_fault = fault
        try:
            r = self.replica.request("HEAD" if head else "GET", path, headers={"Accept": "*/*"})
        finally:
            self.file_fault = None
        with self.replica.keyfs.read_transaction() as tx:
            mine = tx.conn.db_read_typedkey(relpath) if False else self.replica.xom.filestore.get_file_entry(relpath)
            known = mine is not None and bool(mine.meta)
        if head:
            check(r.status_code in (200, 404, 410, 502), lambda: "HEAD %s on the replica answered %s" % (path, r.status_code))
            return
        if r.status_code == 200:
            check(known, "the replica serves %s which it doesn't know" % path)
            self.check_content(path, r.body, val)
            self.ctx.label("served")
        else:
            check(fault is not None or not known or self.last < self.primary.serial,
                  lambda: "GET %s on the replica answered %s %.200s" % (path, r.status_code, r.text))

    @staticmethod
    def check_content(what, body, val):
        for typ, value in val.get("hashes", {}).items():
            h = hashlib.new(typ, body).hexdigest()
            check_equal(h, value, "%s of %s on the replica" % (typ, what))

    def finish(self):
        # the connection works from now on
        for _ in range(self.primary.serial + 8):
            self.tick()
            if self.last == self.primary.serial and self.replica.rt.replica_in_sync_at is not None:
                break
        check_equal(self.last, self.primary.serial, "serial of the replica after polling the reliable primary")
        check(self.replica.rt.replica_in_sync_at is not None, "the replica didn't notice that it is in sync")
        self.replica.settle_initial()
        check(self.replica.drain(retry=True), "the files are not replicated after 400 attempts: %r" % sorted(self.replica.sd.errors.errors))
        self.compare_changes(0, self.last)
        compare_values(self.primary, self.replica)
        # files
        want, have = {}, {}
        dead = set()
        with self.primary.keyfs.get_connection() as pc, self.replica.keyfs.get_connection() as rc:
            for relpath, (keyname, val) in history_files(self.primary).items():
                for conn, res in ((pc, want), (rc, have)):
                    sp = "+files/" + relpath
                    if conn.io_file_exists(sp):
                        res[relpath] = hashlib.sha256(conn.io_file_get(sp)).hexdigest()
                if val is None:
                    dead.add(relpath)
        if self.restarts:
            have = {k: v for k, v in have.items() if k not in dead}
            want = {k: v for k, v in want.items() if k not in dead}
        check_equal(have, want, "the files of the replica and the primary")
        check_equal(sorted(self.replica.sd.errors.errors), [], "the errors shown for the replication")
        for path, (relpath, val) in self.hrefs().items():
            r = self.replica.request("GET", path, headers={"Accept": "*/*"})
            if relpath in want:
                check_equal(r.status_code, 200, "GET %s on the replica" % path)
                self.check_content(path, r.body, val)


def history_files(server):
    out = {}
    with server.keyfs.get_connection() as conn:
        for serial in range(conn.last_changelog_serial + 1):
            for relpath, (keyname, back, val) in conn.get_changes(serial).items():
                if keyname in ("STAGEFILE", "PYPIFILE_NOMD5"):
                    out[relpath] = (keyname, val)
    return out


def current(server):
    from devpi_server.readonly import get_mutable_deepcopy
    keyfs = server.keyfs
    with keyfs.read_transaction() as tx:
        keys = [keyfs.get_key("STAGEFILE"), keyfs.get_key("PYPIFILE_NOMD5")]
        for item in list(tx.iter_relpaths_at(keys, tx.at_serial)):
            if item.value is not None:
                yield keyfs.get_key_instance(item.keyname, item.relpath), item.serial, get_mutable_deepcopy(item.value)


def compare_values(primary, replica):
    """every key at every serial"""
    from devpi_server.readonly import get_mutable_deepcopy
    history = {}
    with primary.keyfs.get_connection() as conn:
        last = conn.last_changelog_serial
        for serial in range(last + 1):
            for relpath, (keyname, back, val) in conn.get_changes(serial).items():
                history.setdefault((keyname, relpath), []).append((serial, get_mutable_deepcopy(val)))
    keyfs = replica.keyfs
    with keyfs.read_transaction(at_serial=last) as tx:
        for (keyname, relpath), changes in history.items():
            key = keyfs.get_key_instance(keyname, relpath)
            points = {s for s, v in changes} | {s - 1 for s, v in changes} | {last}
            for at in sorted(points):
                want = None
                for s, v in changes:
                    if s <= at:
                        want = v
                try:
                    got = get_mutable_deepcopy(tx.get_value_at(key, at))
                except KeyError:
                    got = None
                check_equal(got, want, "value of %s at serial %s on the replica" % (relpath, at))


def make_search(world):
    """a directory with copies of release files, as for --replica-file-search-path"""
    import tempfile
    d = tempfile.mkdtemp(prefix="search")
    rnd = random.Random(len(world.case["steps"]))
    n = 0
    for relpath, (keyname, val) in history_files(world.primary).items():
        if rnd.random() < .3:
            continue
        p = os.path.join(d, "+files", relpath)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with world.primary.keyfs.get_connection() as conn:
            if not conn.io_file_exists("+files/" + relpath):
                continue
            data = conn.io_file_get("+files/" + relpath)
        if world.case["search"] == "bad" and rnd.random() < .6:
            data = data[:-1] + b"?"
        with open(p, "wb") as f:
            f.write(data)
        n += 1
    if n:
        os.makedirs(os.path.join(d, "+files"), exist_ok=True)
        return d
    os.makedirs(os.path.join(d, "+files"), exist_ok=True)
    return d


def run(case, ctx):
    w = World(case, ctx)
    try:
        m = ops.Model(w.primary)
        m.setup()
        steps = list(case["steps"])
        if case["search"]:
            # the first half happens before the replica starts
            half = len(steps) // 2
            for s in steps[:half]:
                if s["s"] == "op":
                    m.run(s["op"])
            steps = steps[half:]
            w.search = make_search(w)
        w.start()
        w.tick()
        for s in steps:
            k = s["s"]
            if k == "op":
                m.run(s["op"])
            elif k == "tick":
                w.tick(s["fault"])
            elif k == "file":
                w.file_fault = s["fault"]
                for _ in range(s["n"]):
                    w.replica.file_tick(retry=s["retry"])
                w.file_fault = None
            elif k == "get":
                w.get(s["which"], s["fault"], s["head"])
            elif k == "again":
                # a change which was applied before is delivered once more by itself
                if w.last >= 0:
                    deliver_again(w, s["which"] % (w.last + 1))
            elif k == "restart":
                w.replica.close()
                w.restarts += 1
                w.start()
                w.replica.rt.initial_fetch = False
        w.finish()
        if w.front.errors:
            raise HarnessError("the primary raised %r" % w.front.errors[:2])
        for h in w.hit:
            ctx.label(h)
        if w.hit and w.last >= 8:
            ctx.mark("restarted" if w.restarts else None)
    finally:
        w.close()


def deliver_again(w, serial):
    from devpi_server.fileutil import loads
    with w.primary.keyfs.get_connection() as conn:
        changes = loads(conn.get_raw_changelog_entry(serial))[0]
    try:
        w.replica.keyfs.import_changes(serial, changes)
    except Exception:
        pass
    check_equal(w.replica.serial, w.last, "serial after a change was delivered a second time")


def subs():
    return [Sub("converge", cases, run, quick=280, thorough=12000, shards=8,
                rule="10-40 steps: requests to the primary, fetching and file replication steps with cut, dropped, corrupted, repeated, skipped or reordered deliveries, restarts; "
                     "non-trivial if at least 8 changes and one fault were delivered")]
