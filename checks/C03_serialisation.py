"""C03: stored values round-trip exactly and reads are immutable snapshots."""
from vt import boot  # noqa: F401
import math
import struct
from hypothesis import strategies as st
from vt.core import Sub, check, Violation

LEVEL = "exploration"
RULE = "nested values of all storable types"
ASSUMPTIONS = []

# values are generated in a JSON-able tagged form so that cases replay
_text = st.text(st.characters(blacklist_categories=("Cs",)), max_size=12)
_scalar = st.one_of(
    st.just(["none"]),
    st.booleans().map(lambda b: ["bool", b]),
    st.one_of(st.integers(-2**31, 2**31 - 1), st.integers(-2**80, 2**80), st.sampled_from([-2**31 - 1, -2**31, 2**31 - 1, 2**31, 2**32, -2**31, -1, 0, 255, 256, 65536])).map(lambda i: ["int", i]),
    st.floats(allow_nan=False).map(lambda f: ["float", struct.pack("!d", f).hex()]),
    _text.map(lambda s: ["str", s]),
    st.one_of(st.binary(max_size=12), st.just(b"x" * 300), st.sampled_from([b"Q", b"", b"\0", b"PPQ@"])).map(lambda b: ["bytes", b.hex()]),
)
_hashable = st.recursive(
    _scalar,
    lambda c: st.one_of(st.lists(c, max_size=3).map(lambda x: ["tuple", x]),
                        st.lists(c, max_size=3).map(lambda x: ["frozenset", x])),
    max_leaves=4)
_value = st.recursive(
    st.one_of(_scalar, _hashable),
    lambda c: st.one_of(
        st.lists(c, max_size=4).map(lambda x: ["tuple", x]),
        st.lists(c, max_size=4).map(lambda x: ["list", x]),
        st.lists(_hashable, max_size=4).map(lambda x: ["set", x]),
        st.lists(_hashable, max_size=4).map(lambda x: ["frozenset", x]),
        st.lists(st.tuples(_hashable, c).map(list), max_size=4).map(lambda x: ["dict", x])),
    max_leaves=14)
_long = st.tuples(st.sampled_from(["list", "tuple", "dict", "str", "bytes"]), st.sampled_from([127, 128, 255, 256, 257, 300, 700])).map(
    lambda t: ["long", t[0], t[1]])


def build(t):
    k = t[0]
    if k == "none":
        return None
    if k in ("bool", "int", "str"):
        return t[1]
    if k == "float":
        return struct.unpack("!d", bytes.fromhex(t[1]))[0]
    if k == "bytes":
        return bytes.fromhex(t[1])
    if k == "long":
        n = t[2]
        return {"list": lambda: list(range(n)), "tuple": lambda: tuple(str(i) for i in range(n)),
                "dict": lambda: {str(i): i for i in range(n)}, "str": lambda: "ä" * n, "bytes": lambda: bytes([i % 256 for i in range(n)])}[t[1]]()
    if k == "dict":
        return {build(a): build(b) for a, b in t[1]}
    return {"tuple": tuple, "list": list, "set": set, "frozenset": frozenset}[k](build(x) for x in t[1])


def same(a, b):
    """equality including types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        ka, kb = sorted(a, key=skey), sorted(b, key=skey)
        return list(map(skey, ka)) == list(map(skey, kb)) and all(same(a[x], b[x]) for x in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (set, frozenset)):
        return sorted(map(skey, a)) == sorted(map(skey, b))
    if isinstance(a, float):
        return struct.pack("!d", a) == struct.pack("!d", b)
    return a == b


def skey(x):
    if isinstance(x, (set, frozenset)):
        return "%s%s" % (type(x).__name__, sorted(map(skey, x)))
    if isinstance(x, (tuple, list)):
        return "%s%s" % (type(x).__name__, [skey(y) for y in x])
    return "%s:%r" % (type(x).__name__, x)


def run_roundtrip(case, ctx):
    from devpi_server.fileutil import dumps, loads, load, dump
    import io
    val = build(case)
    data = dumps(val)
    back = loads(data)
    check(same(val, back), lambda: "loads(dumps(v)) differs: %r -> %r" % (val, back))
    f = io.BytesIO()
    dump(f, val)
    check(f.getvalue() == data, "dump and dumps disagree")
    f.write(b"tail")
    f.seek(0)
    check(same(load(f), val), "load from a stream differs")
    check(f.read() == b"tail", "load consumed bytes after the value")
    if len(data) > 8:
        ctx.mark("nested" if case[0] in ("list", "tuple", "dict", "set", "frozenset") else "scalar")
    # every proper prefix is rejected
    for i in range(len(data)) if len(data) < 400 else list(range(0, len(data), 37)):
        try:
            v = loads(data[:i])
        except Exception:
            continue
        raise Violation("truncated input of %d/%d bytes was accepted as %r" % (i, len(data), v))


def run_readonly(case, ctx):
    from devpi_server.readonly import ensure_deeply_readonly, get_mutable_deepcopy, is_deeply_readonly
    from devpi_server.fileutil import dumps, loads
    val = build(case["value"])
    ref = build(case["value"])
    ro = ensure_deeply_readonly(val)
    check(is_deeply_readonly(ro), "not reported as read-only")
    check(ro == ref, "read-only view differs from value")
    check(same(loads(dumps(ro)), ref), "serialising the read-only view differs")
    muts = attack(ro, ctx)
    check(same(val, ref), lambda: "value changed through its read-only view: %r -> %r (%s)" % (ref, val, muts))
    cp = get_mutable_deepcopy(ro)
    check(same(cp, ref), lambda: "mutable copy differs %r %r" % (cp, ref))
    mutate(cp)
    check(same(val, ref), lambda: "mutating the copy changed the original: %r -> %r" % (ref, val))


def attack(ro, ctx, depth=0):
    """try every mutating method/assignment on everything reachable"""
    done = []
    if depth > 6:
        return done
    if isinstance(ro, (type(None), bool, int, float, str, bytes)):
        return done
    for name, args in (("append", (1,)), ("extend", ([1],)), ("add", (1,)), ("clear", ()), ("pop", ()), ("update", ({"zz": 1},)),
                       ("remove", (1,)), ("setdefault", ("zz", 1)), ("insert", (0, 1)), ("sort", ()), ("reverse", ()), ("discard", (1,)), ("popitem", ()),
                       ("__setitem__", ("zz", 1)), ("__setitem__", (0, 99)), ("__delitem__", (0,)), ("__iadd__", ([1],)), ("__ior__", ({"q": 1},)),
                       ("__isub__", (set(),)), ("__iand__", (set(),)), ("__ixor__", ({1},))):
        m = getattr(ro, name, None)
        if m is not None:
            try:
                m(*args)
                done.append(name)
            except Exception:
                pass
    kids = []
    if hasattr(ro, "items"):
        for k, v in ro.items():
            kids.append(v)
        kids.extend(ro.values())
        for k in ro.keys():
            kids.append(ro[k])
            kids.append(ro.get(k))
        check(list(ro) == list(ro.keys()) and len(ro) == len(list(ro)), "dict view is inconsistent")
    elif hasattr(ro, "__getitem__"):
        kids.extend(ro)
        kids.extend(ro[i] for i in range(len(ro)))
        kids.append(ro[:])
    elif hasattr(ro, "__iter__"):
        kids.extend(ro)
    if len(kids) > 1:
        ctx.mark("readonly-container")
    for k in kids:
        if k is not ro:
            done += attack(k, ctx, depth + 1)
    return done


def mutate(v, depth=0):
    if isinstance(v, dict):
        for x in list(v.values()):
            mutate(x, depth + 1)
        v["__mutated__"] = 1
    elif isinstance(v, list):
        for x in v:
            mutate(x, depth + 1)
        v.append("__mutated__")
    elif isinstance(v, tuple):
        for x in v:
            mutate(x, depth + 1)
    elif isinstance(v, set):
        v.add("__mutated__")


# -- through the database: values given to and obtained from transactions

_jsonish = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-2**40, 2**40), st.text(st.characters(blacklist_categories=("Cs",)), max_size=5)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from("abcd"), c, max_size=3)), max_leaves=8)


def db_cases():
    step = st.fixed_dictionaries(dict(
        key=st.integers(0, 2), value=st.dictionaries(st.sampled_from("abcd"), _jsonish, max_size=3),
        how=st.sampled_from(["set", "update", "get-mutate-set"]), mutate_after=st.booleans(), restart=st.booleans()))
    return st.fixed_dictionaries(dict(cache=st.sampled_from([1, 20, 100, 10000]), steps=st.lists(step, min_size=1, max_size=6)))


def run_db(case, ctx):
    import copy
    from vt.server import Server
    s = Server(app=False, start=(), opts=["--keyfs-cache-size", str(case["cache"])])

    def addkeys():
        return [s.keyfs.add_key("VERIF%d" % i, "verif/k%d" % i, dict) for i in range(3)]
    keys = addkeys()
    model = {}
    hist = []
    try:
        for step in case["steps"]:
            val = copy.deepcopy(step["value"])
            k = keys[step["key"]]
            with s.keyfs.write_transaction():
                if step["how"] == "set":
                    k.set(val)
                    new = copy.deepcopy(step["value"])
                elif step["how"] == "update":
                    with k.update() as d:
                        d.update(val)
                    new = dict(copy.deepcopy(model.get(step["key"], {})), **copy.deepcopy(step["value"]))
                else:
                    d = k.get(readonly=False)
                    mutate(d)        # changing the copy alone must not matter
                    ro = k.get()
                    attack(ro, ctx)
                    check(same_json(ro, model.get(step["key"], {})), "a mutable copy changed the stored value")
                    k.set(val)
                    new = copy.deepcopy(step["value"])
            if model.get(step["key"]) != new:
                model[step["key"]] = new
            if step["mutate_after"]:
                mutate(val)
                if step["how"] == "update":
                    mutate(d)
                ctx.mark("mutated-after-commit")
            hist.append((s.keyfs.get_current_serial(), copy.deepcopy(model)))
            if step["restart"]:
                path = s.path
                s.keep = True
                s.close()
                s = Server(path=path, app=False, start=(), opts=["--keyfs-cache-size", str(case["cache"])])
                s.own_path, s.keep = True, False
                keys = addkeys()
            for serial, m in hist:
                with s.keyfs.read_transaction(at_serial=serial):
                    for i, key in enumerate(keys):
                        v = key.get()
                        check(same_json(v, m.get(i, {})), lambda: "value at serial %s: %r, expected %r" % (serial, v, m.get(i)))
                        attack(v, ctx)
                        check(same_json(key.get(), m.get(i, {})), "a read value could be changed")
    finally:
        s.close()


def same_json(ro, ref):
    from devpi_server.readonly import get_mutable_deepcopy
    return same(get_mutable_deepcopy(ro), ref)


def subs():
    value = st.one_of(_value, _value, _value, _long)
    return [
        Sub("roundtrip", lambda: value, run_roundtrip, quick=12000, thorough=200000, shards=4,
            rule="random nested value; serialised, reloaded, every proper prefix tried; non-trivial if longer than 8 bytes"),
        Sub("readonly", lambda: st.fixed_dictionaries(dict(value=_value)), run_readonly, quick=6000, thorough=60000, shards=3,
            rule="random nested value wrapped read-only and attacked with every mutator; non-trivial if it has more than one reachable child"),
        Sub("db", db_cases, run_db, quick=500, thorough=6000, shards=6,
            rule="set/update/mutate sequences on real keys, re-read at every serial; non-trivial if a caller-held object was mutated after the commit"),
    ]
