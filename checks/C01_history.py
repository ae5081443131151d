"""C01: committed changes form one serial-ordered, snapshot-isolated history."""
from vt import boot  # noqa: F401
import copy
import queue
import threading
from hypothesis import strategies as st
from vt.core import Sub, check, Violation
from vt.gen import weighted
from checks.C03_serialisation import same

LEVEL = "exploration"
ASSUMPTIONS = ["comparison of old and new value follows Python equality (setting 1 over True is 'no change')",
               "deleting a key that never existed may or may not consume a serial"]

# key name -> (path, type); plain, templated and with neighbouring/prefix paths
KEYS = [
    ("VA", "v/a", dict, {}), ("VB", "v/a/b", set, {}), ("VC", "{u}/v.c", dict, dict(u="x")), ("VC", "{u}/v.c", dict, dict(u="x.y")),
    ("VD", "{u}/{i}/l", list, dict(u="x", i="y")), ("VD", "{u}/{i}/l", list, dict(u="y", i="x")), ("VE", "{u}/n", int, dict(u="z")),
    ("VF", "t/{i}", tuple, dict(i="1")),
]
_j = st.recursive(
    st.one_of(st.integers(-3, 3), st.text("abé", max_size=3), st.none()),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from("abc"), c, max_size=3)), max_leaves=6)
VALUES = {
    dict: st.one_of(st.dictionaries(st.sampled_from("abcd"), _j, max_size=3), st.just({"big": "x" * 120000})),
    set: st.lists(st.sampled_from(["a", "b", "c", "d"]), max_size=3),
    list: st.lists(_j, max_size=3),
    int: st.integers(-5, 5),
    tuple: st.lists(st.integers(0, 3), max_size=3),
}


def conv(i, v):
    v = copy.deepcopy(v)
    t = KEYS[i][2]
    return v if t in (dict, list, int) else t(v)


def _setop(i):
    return st.tuples(st.sampled_from(["set", "set", "update"]) if KEYS[i][2] is dict else st.just("set"), st.just(i), VALUES[KEYS[i][2]]).map(list)


_key = weighted((4, st.integers(0, 1)), (1, st.integers(0, len(KEYS) - 1)))
_txop = weighted(
    (6, _key.flatmap(_setop)),
    (2, _key.map(lambda i: ["delete", i])),
    (2, _key.map(lambda i: ["get", i])),
    (1, _key.map(lambda i: ["restore", i])))      # set back to the committed value
_tx = st.fixed_dictionaries(dict(
    op=st.just("tx"), ops=st.lists(_txop, min_size=1, max_size=5),
    end=weighted((6, st.just("commit")), (1, st.just("rollback")), (1, st.just("doom")), (1, st.just("raise")), (1, st.just("restarted")))))
_step = weighted(
    (10, _tx),
    (3, st.fixed_dictionaries(dict(op=st.just("pin"), actor=st.integers(0, 1), at=st.one_of(st.none(), st.integers(0, 30))))),
    (5, st.fixed_dictionaries(dict(op=st.just("readpin"), actor=st.integers(0, 1)))),
    (1, st.fixed_dictionaries(dict(op=st.just("unpin"), actor=st.integers(0, 1)))),
    (1, st.just(dict(op="restart"))),
    (3, st.fixed_dictionaries(dict(op=st.just("readat"), at=st.integers(0, 30), key=_key))),
    (2, st.just(dict(op="scan"))),
)


def cases():
    return st.fixed_dictionaries(dict(
        storage=st.sampled_from(["sqlite", "sqlite", "sqlite_db_files"]),
        cache=st.sampled_from([1, 2, 21, 40, 60, 10000]),
        steps=st.lists(_step, min_size=14, max_size=40)))


class Actor:
    """a thread holding a read transaction open"""

    def __init__(self, keyfs):
        self.q = queue.Queue()
        self.r = queue.Queue()
        self.keyfs = keyfs
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()
        self.pinned = None

    def loop(self):
        while True:
            fn = self.q.get()
            if fn is None:
                return
            try:
                self.r.put((True, fn()))
            except BaseException as e:
                self.r.put((False, e))

    def do(self, fn):
        self.q.put(fn)
        ok, v = self.r.get(timeout=60)
        if not ok:
            raise v
        return v

    def stop(self):
        if self.pinned is not None:
            try:
                self.do(self.keyfs.rollback_transaction_in_thread)
            except Exception:
                pass
        self.q.put(None)
        self.t.join(5)


class Boom(Exception):
    pass


def open_server(case, path=None):
    from vt.server import Server
    s = Server(path=path, app=False, start=(), storage=case["storage"], opts=["--keyfs-cache-size", str(case["cache"])])
    s.own_path = True
    reg = {}
    for name, pat, typ, params in KEYS:
        if name not in reg:
            reg[name] = s.keyfs.add_key(name, pat, typ)
    keys = [reg[n](**p) if p else reg[n] for n, pat, t, p in KEYS]
    return s, keys


def strict(ro):
    from devpi_server.readonly import get_mutable_deepcopy
    return get_mutable_deepcopy(ro)


def run(case, ctx):
    s, keys = open_server(case)
    base = s.serial
    hist = {base: {}}      # serial -> {keyindex: value}
    cur = {}
    actors = [Actor(s.keyfs), Actor(s.keyfs)]
    empty = {i: KEYS[i][2]() for i in range(len(KEYS))}

    def expect(got_key, state, what, exists=True):
        i = got_key
        v = strict(keys[i].get())
        want = state.get(i, empty[i])
        check(same(v, want), lambda: "%s: key %s is %.200r, expected %.200r" % (what, keys[i].relpath, v, want))
        e = keys[i].exists()
        check(e == (i in state), lambda: "%s: key %s exists()=%r" % (what, keys[i].relpath, e))

    def readall(state, serial, what):
        for i in range(len(KEYS)):
            expect(i, state, "%s at serial %s" % (what, serial))
            last = max([sr for sr in hist if sr <= serial and sr > base and changed(i, sr)], default=None)
            ls = keys[i].last_serial
            if i in state:
                check(ls == last, lambda: "%s: last_serial of %s at %s is %r, expected %r" % (what, keys[i].relpath, serial, ls, last))

    def changed(i, sr):
        a, b = hist[sr - 1], hist[sr]
        return (i in a) != (i in b) or (i in a and not a[i] == b[i])

    def in_actor(actor, state, serial):
        actor.do(lambda: readall(state, serial, "pinned reader"))

    try:
        for step in case["steps"]:
            op = step["op"]
            if op == "tx":
                before = s.serial
                pend = dict(cur)
                sure = False     # definitely changes something
                phantom = False
                end = step["end"]
                try:
                    if end == "restarted":
                        s.keyfs.begin_transaction_in_thread()
                        for i in range(2):
                            expect(i, cur, "read transaction")
                        s.keyfs.restart_as_write_transaction()
                    else:
                        s.keyfs.begin_transaction_in_thread(write=True)
                    for o in step["ops"]:
                        i = o[1]
                        if o[0] == "set":
                            v = conv(i, o[2])
                            keys[i].set(conv(i, o[2]))
                            pend[i] = v
                        elif o[0] == "update":
                            with keys[i].update() as d:
                                d.update(conv(i, o[2]))
                            pend[i] = dict(pend.get(i, {}), **conv(i, o[2]))
                        elif o[0] == "restore":
                            if i in cur:
                                keys[i].set(copy.deepcopy(cur[i]))
                                pend[i] = copy.deepcopy(cur[i])
                            else:
                                keys[i].delete()
                                pend.pop(i, None)
                                phantom = True
                        elif o[0] == "delete":
                            keys[i].delete()
                            if i in cur:
                                pass
                            else:
                                phantom = True
                            pend.pop(i, None)
                        expect(i, pend, "own transaction after %s" % o[0])
                    # other threads do not see pending changes
                    actors[0].do(lambda: _peek(s.keyfs, lambda: [expect(o[1], cur, "concurrent new reader") for o in step["ops"]])) if actors[0].pinned is None else None
                    if end in ("commit", "restarted"):
                        s.keyfs.commit_transaction_in_thread()
                    elif end == "rollback":
                        s.keyfs.rollback_transaction_in_thread()
                    elif end == "doom":
                        s.keyfs.tx.doom()
                        s.keyfs.commit_transaction_in_thread()
                    else:
                        raise Boom()
                except Boom:
                    s.keyfs.rollback_transaction_in_thread()
                except BaseException:
                    try:
                        s.keyfs.rollback_transaction_in_thread()
                    except BaseException:
                        pass
                    raise
                after = s.serial
                if end in ("commit", "restarted"):
                    new = {}
                    for i, v in pend.items():
                        new[i] = cur[i] if i in cur and cur[i] == v else v
                    sure = set(new) != set(cur) or any(not (new[i] == cur[i]) for i in new)
                    if sure:
                        check(after == before + 1, "a changing transaction moved the serial from %s to %s" % (before, after))
                    elif phantom:
                        check(after in (before, before + 1), "serial moved from %s to %s" % (before, after))
                    else:
                        check(after == before, "a transaction without changes moved the serial from %s to %s" % (before, after))
                    if after > before:
                        cur = new
                        hist[after] = dict(cur)
                        ctx.label("commit")
                else:
                    check(after == before, "%s transaction moved the serial from %s to %s" % (end, before, after))
                    ctx.label("aborted")
                s.keyfs.begin_transaction_in_thread()
                try:
                    for o in step["ops"]:
                        expect(o[1], cur, "new reader after %s" % end)
                finally:
                    s.keyfs.rollback_transaction_in_thread()
            elif op == "pin":
                a = actors[step["actor"]]
                if a.pinned is None:
                    at = step["at"]
                    if at is None:
                        a.do(lambda: s.keyfs.begin_transaction_in_thread())
                        a.pinned = s.serial
                    else:
                        serials = sorted(hist)
                        at = serials[at % len(serials)]
                        a.do(lambda: s.keyfs.begin_transaction_in_thread(at_serial=at))
                        a.pinned = at
                    a.pinned_at = a.pinned
            elif op in ("readpin", "unpin"):
                a = actors[step["actor"]]
                if a.pinned is not None:
                    in_actor(a, hist[a.pinned], a.pinned)
                    if a.pinned < s.serial:
                        ctx.mark("pinned-read-behind")
                    if op == "unpin":
                        a.do(s.keyfs.rollback_transaction_in_thread)
                        a.pinned = None
            elif op == "readat":
                serials = sorted(hist)
                at = serials[step["at"] % len(serials)]
                with s.keyfs.read_transaction(at_serial=at):
                    expect(step["key"], hist[at], "read at serial %s" % at)
                ctx.label("read-at")
            elif op == "scan":
                scan(s, keys, hist, base, cur, ctx)
            elif op == "restart":
                for a in actors:
                    a.stop()
                s.keep = True
                path = s.path
                s.close()
                s, keys = open_server(case, path)
                actors = [Actor(s.keyfs), Actor(s.keyfs)]
                check(s.serial == max(hist), "after restart the serial is %s, expected %s" % (s.serial, max(hist)))
                ctx.label("restart")
        for serial in sorted(hist):
            with s.keyfs.read_transaction(at_serial=serial):
                readall(hist[serial], serial, "final read")
        scan(s, keys, hist, base, cur, ctx)
        if len(hist) > 3:
            ctx.mark("history>3")
    finally:
        for a in actors:
            a.stop()
        s.keep = False
        s.close()


def _peek(keyfs, fn):
    with keyfs.read_transaction():
        fn()


def scan(s, keys, hist, base, cur, ctx):
    """the change records agree with the history"""
    relindex = {k.relpath: i for i, k in enumerate(keys)}
    with s.keyfs.get_connection() as conn:
        for serial in sorted(hist):
            if serial == base:
                continue
            changes = conn.get_changes(serial)
            got = {}
            for relpath, (keyname, back_serial, val) in changes.items():
                i = relindex[relpath]
                got[i] = val
                check(keyname == keys[i].name, "change record with wrong key name")
                prev = max([sr for sr in hist if sr < serial and sr > base and relpath in conn.get_changes(sr)], default=-1)
                check(back_serial == prev, lambda: "back serial of %s at %s is %s, expected %s" % (relpath, serial, back_serial, prev))
            a, b = hist[serial - 1], hist[serial]
            for i in range(len(KEYS)):
                if (i in a) != (i in b) or (i in a and not a[i] == b[i]):
                    check(i in got, "change of %s missing from change record %s" % (keys[i].relpath, serial))
                if i in got:
                    v = strict(got[i])
                    want = b.get(i)
                    check(v is None if i not in b else same(v, want), lambda: "change record %s of %s has %.100r, expected %.100r" % (serial, keys[i].relpath, v, want))
    with s.keyfs.read_transaction() as tx:
        infos = {ri.relpath: ri for ri in tx.iter_relpaths_at(keys, tx.at_serial)}
        for i, k in enumerate(keys):
            ri = infos.get(k.relpath)
            if i in cur:
                check(ri is not None and same(strict(ri.value), cur[i]), lambda: "key listing shows %.100r for %s, expected %.100r" % (ri, k.relpath, cur[i]))
            elif ri is not None:
                check(ri.value is None, "key listing shows a value for the missing key %s" % k.relpath)


def subs():
    return [Sub("history", cases, run, quick=1600, thorough=30000, shards=8,
                rule="random histories of write transactions (commit, rollback, doom, exception), pinned readers in other threads, reads at old serials, restarts over 8 keys, "
                     "cache sizes 1..10000, two storages; non-trivial if a pinned reader read behind the current serial or the history has more than 3 commits")]
