"""C05: release files on a non-volatile index are immutable."""
from vt import boot  # noqa: F401
from urllib.parse import quote, urlsplit, unquote
from hypothesis import strategies as st
from vt.core import Sub, check
from vt.gen import weighted, op
from vt import ops, observe

LEVEL = "exploration"
TECHNIQUE = "stateful generation of adversarial request histories, invariant over every accepted file after each request"
ASSUMPTIONS = ["deletes with the explicit 'force' parameter and making the index volatile are deliberate exceptions and not generated"]

NV, SRC = "u1/nv", "u2/src"
OTHER = ["u1/a", "u1/z", "u2/a"]
ACTORS = ["u1", "u2", "root", "u3", None]
NAMES = ["foo", "Foo", "foo-bar", "Foo.Bar"]
# (version given in the form, version in the file name)
VERS = [("1.0", "1.0"), ("1.0.1", "1.0.1"), ("1.0", "1.0.1"), ("1", "1.0"), ("0", "1.0"), (".0", "1.0"), ("2.0-a", "2.0-a"), ("2.0_a", "2.0-a"), ("2.0", "2.0-a")]
CONTENTS = [b"one", b"two", b"", b"three" * 5000]

_a = weighted((4, st.just(0)), (4, st.just(1)), (1, st.integers(2, 4)))
_n = weighted((3, st.integers(0, 1)), (1, st.integers(2, 3)))
_v = weighted((3, st.just(0)), (3, st.integers(1, 5)), (1, st.integers(0, len(VERS) - 1)))
_c = weighted((3, st.integers(0, 1)), (1, st.integers(2, 3)))
_t = st.sampled_from(["sdist", "sdist", "zip", "wheel"])
_w = st.integers(0, 12)
_mode = st.sampled_from(["file", "version", "project", "file", "result", "docs"])


def cases():
    table = weighted(
        (8, op("upload", a=_a, n=_n, v=_v, c=_c, t=_t)),
        (6, op("again", a=_a, w=_w, c=_c, v=_v, n=_n)),        # the same file name once more
        (3, op("srcupload", n=_n, v=_v, c=_c, t=_t)),
        (4, op("srcagain", w=_w, c=_c)),
        (5, op("push", a=_a, w=_w, docs=st.sampled_from([None, "no_docs", "only_docs"]))),
        (2, op("pushself", a=_a, w=_w)),
        (2, op("submit", a=_a, n=_n, v=_v)),
        (2, op("doc", a=_a, n=_n, v=_v, c=_c)),
        (2, op("tox", a=_a, w=_w)),
        (5, op("delete", a=_a, w=_w, mode=_mode, sp=st.booleans())),
        (2, op("delindex", a=_a)),
        (4, op("deluser", a=_a)),
        (2, op("mkother", which=st.integers(0, 2), volatile=st.booleans())),
        (1, op("delother", a=_a, which=st.integers(0, 2))),
        (1, op("srcbases", ix=st.integers(0, 2))),
        (2, op("srcdelete", a=_a, w=_w, mode=st.sampled_from(["version", "project"]))),
        (1, op("pushout", a=_a, w=_w)),
        (2, op("putindex", a=_a, volatile=st.booleans())),
        (2, op("patch", a=_a, what=st.sampled_from(["title=x", "volatile=False", "acl_upload=u1,u2", "volatile-=", "volatile=", "mirror_whitelist=*"]))),
        (1, op("restart")))
    return st.fixed_dictionaries(dict(ops=st.lists(table, min_size=10, max_size=26), volatile_first=st.booleans()))


def run(case, ctx):
    from vt.server import Server
    s = Server(start=(), keep=True)
    try:
        s = _run(case, ctx, s)
    finally:
        s.keep = False
        s.close()


def _run(case, ctx, s):
    from vt.server import Server
    for u in ("u1", "u2", "u3"):
        s.create_user(u)
    s.login("root", "")
    assert s.create_index(NV, volatile=False, acl_upload=["u1", "u2"]).status_code == 200
    assert s.create_index(SRC, volatile=True).status_code == 200
    accepted = {}      # (project, filename) -> [content, href, versions]
    removed_docs = False

    def record(project, fn, content, version, status, what):
        old = accepted.get((project, fn))
        if status == 200:
            if old is None:
                accepted[(project, fn)] = [content, None, version]
                ctx.label("accepted")
            else:
                check(old[0] == content, lambda: "%s: file %s was accepted with new content although the index is non-volatile" % (what, fn))
                ctx.label("identical")
        elif old is not None:
            ctx.mark("conflict-refused")

    def upload(index, actor, name, version, fn, content):
        return s.post_form("/%s/" % index, [(":action", "file_upload"), ("name", name), ("version", version), ("summary", "s%d" % len(content))],
                           file=("content", fn, content), user=actor)

    def invariant(what):
        pages = {}
        for (project, fn), rec in accepted.items():
            content, href, version = rec
            if project not in pages:
                pages[project] = (observe.simple_page(s, NV, project), s.get("/%s/%s" % (NV, project)))
            page, pj = pages[project]
            check(page and isinstance(page[0], list), lambda: "%s: the simple page of %s is gone: %r" % (what, project, page))
            hits = [x for x in page if x[0] == fn]
            check(len(hits) == 1, lambda: "%s: file %s is listed %d times" % (what, fn, len(hits)))
            check(hits[0][2] == "sha256=" + ops.sha(content), lambda: "%s: the listed hash of %s changed" % (what, fn))
            if href is None:
                rec[1] = href = hits[0][1]
            check(hits[0][1] == href, lambda: "%s: the link of %s changed from %s to %s" % (what, fn, href, hits[0][1]))
            r = s.get(href, accept=None)
            check(r.status_code == 200 and r.body == content, lambda: "%s: %s is answered %s with %d bytes, was %d bytes" % (what, href, r.status_code, len(r.body), len(content)))
            check(pj.status_code == 200, lambda: "%s: project %s is gone" % (what, project))
            vd = pj.json["result"].get(version, {})
            check(any(unquote(urlsplit(x["href"]).path) == unquote(href) and x["hash_spec"] == "sha256=" + ops.sha(content) for x in vd.get("+links", ())),
                  lambda: "%s: version %s of %s lost its file %s" % (what, version, project, fn))

    def srcfiles():
        r = s.get("/" + SRC)
        out = []
        for p in r.json["result"]["projects"]:
            for v, d in s.get("/%s/%s" % (SRC, p)).json["result"].items():
                for lk in d.get("+links", ()):
                    if lk["rel"] == "releasefile":
                        path = unquote(urlsplit(lk["href"]).path)
                        out.append((p, v, path.split("/")[-1], path))
        return sorted(out)

    for o in case["ops"]:
        kind = o["op"]
        actor = ACTORS[o["a"]] if "a" in o else None
        keys = sorted(accepted)
        pick = keys[o["w"] % len(keys)] if keys and "w" in o else None
        what = "after %r" % (o,)
        if kind == "restart":
            tokens, path = s.tokens, s.path
            s.close()
            s = Server(path=path, start=(), keep=True)
            s.own_path = True
            s.tokens = tokens
        elif kind in ("upload", "srcupload"):
            name = NAMES[o["n"]]
            version, fv = VERS[o["v"]]
            fn = ops.filename(name, fv, o["t"])
            content = CONTENTS[o["c"]]
            if kind == "upload":
                r = upload(NV, actor, name, version, fn, content)
                record(ops.norm(name), fn, content, version, r.status_code, what)
            else:
                upload(SRC, "u2", name, version, fn, content)
        elif kind == "again" and pick:
            project, fn = pick
            version = [accepted[pick][2], VERS[o["v"]][0]][o["v"] % 2]
            name = project if o["n"] % 2 else project.upper()
            r = upload(NV, actor, name, version, fn, CONTENTS[o["c"]])
            record(project, fn, CONTENTS[o["c"]], version, r.status_code, what)
        elif kind == "srcagain" and pick:
            project, fn = pick
            upload(SRC, "u2", project, accepted[pick][2], fn, CONTENTS[o["c"]])
        elif kind == "push":
            fs = srcfiles()
            if fs:
                p, v, fn, path = fs[o["w"] % len(fs)]
                data = dict(name=p, version=v, targetindex=NV)
                if o["docs"]:
                    data[o["docs"]] = True
                contents = {x[2]: s.get(quote(x[3]), accept=None).body for x in fs if x[:2] == (p, v)}
                r = s.send_json("POST", "/" + SRC, data, user=actor)
                ctx.label("push:%s" % r.status_code)
                if r.status_code == 200 and o["docs"] != "only_docs":
                    for f2, c2 in contents.items():
                        record(p, f2, c2, v, 200, what)
                elif r.status_code == 409:
                    ctx.mark("conflict-refused")
        elif kind == "pushself" and pick:
            s.send_json("POST", "/" + NV, dict(name=pick[0], version=accepted[pick][2], targetindex=NV), user=actor)
        elif kind == "submit":
            s.post_form("/%s/" % NV, [(":action", "submit"), ("name", NAMES[o["n"]]), ("version", VERS[o["v"]][0])], user=actor)
        elif kind == "doc":
            s.post_form("/%s/" % NV, [(":action", "doc_upload"), ("name", NAMES[o["n"]]), ("version", VERS[o["v"]][0])],
                        file=("content", "d.zip", CONTENTS[o["c"]]), user=actor)
        elif kind == "tox" and pick and accepted[pick][1]:
            s.request("POST", accepted[pick][1], b"{}", headers={"Content-Type": "application/json"}, user=actor)
        elif kind == "delete" and pick:
            project, fn = pick
            if o["mode"] == "file":
                url = accepted[pick][1]
            elif o["mode"] in ("result", "docs"):
                vd = s.get("/%s/%s/%s" % (NV, project, quote(accepted[pick][2]))).json.get("result", {})
                urls = [x["href"] for x in vd.get("+links", ()) if x["rel"] != "releasefile"]
                url = urls[0] if urls else None
            else:
                p = project.replace("-", "_").upper() if o["sp"] else project
                url = "/%s/%s" % (NV, p) + ("/" + quote(accepted[pick][2]) if o["mode"] == "version" else "")
            if url:
                r = s.delete(url, user=actor)
                check(r.status_code >= 400, lambda: "%s: deletion on a non-volatile index answered %s" % (what, r.status_code))
                ctx.mark("delete-refused")
        elif kind == "delindex":
            check(s.delete("/" + NV, user=actor).status_code >= 400, "non-volatile index was deleted")
        elif kind == "deluser":
            check(s.delete("/u1", user=actor).status_code >= 400, "the owner of a non-volatile index was deleted")
        elif kind == "mkother":
            # the owner has more indexes, listed before and after this one
            s.send_json("PUT", "/" + OTHER[o["which"]], dict(volatile=o["volatile"]), user=OTHER[o["which"]].split("/")[0])
        elif kind == "delother":
            s.delete("/" + OTHER[o["which"]], user=actor)
        elif kind == "srcbases":
            s.send_json("PATCH", "/" + ([SRC] + OTHER)[o["ix"]], ["bases+=" + NV], user=([SRC] + OTHER)[o["ix"]].split("/")[0])
        elif kind == "srcdelete" and pick:
            # an index that shows the project through inheritance
            s.delete("/%s/%s" % (SRC, pick[0]) + ("/" + quote(accepted[pick][2]) if o["mode"] == "version" else ""), user=actor)
        elif kind == "pushout" and pick:
            s.send_json("POST", "/" + NV, dict(name=pick[0], version=accepted[pick][2], targetindex=SRC), user=actor)
        elif kind == "putindex":
            check(s.send_json("PUT", "/" + NV, dict(volatile=o["volatile"]), user=actor).status_code >= 400, "existing index was created again")
        elif kind == "patch":
            s.send_json("PATCH", "/" + NV, [o["what"]], user=actor)
            vol = s.get("/" + NV).json["result"]["volatile"]
            if vol:
                check(o["what"] not in ("title=x", "volatile=False", "acl_upload=u1,u2", "mirror_whitelist=*"), "PATCH %s made the index volatile" % o["what"])
                s.send_json("PATCH", "/" + NV, ["volatile=False"], user="root")
        invariant(what)
    return s


def vol_cases():
    return st.fixed_dictionaries(dict(
        ops=st.lists(ops.op_strategy(ix=weighted((5, st.just(0)), (1, st.just(2))), manage=False, volatile=False, submit=False), min_size=10, max_size=25)))


def vol_run(case, ctx):
    from vt.server import Server
    with Server(start=()) as s:
        m = ops.Model(s)
        m.setup(volatile=(True, True, True))
        for o in case["ops"]:
            m.run(o)
        m.compare_all()
        n = sum(x[-1] for ixs in m.users.values() for ix in ixs.values() for _p, _v, lk in ix.all_links() for x in lk.logs if x[0] == "overwrite")
        ctx.label("overwrites", n)
        ctx.label("gone", len(m.gone))
        if n or m.gone:
            ctx.mark()


def subs():
    return [
        Sub("nonvolatile", cases, run, quick=480, thorough=12000, shards=8,
            rule="10-26 requests by owner, other uploader, root, stranger and anonymous; non-trivial if a conflicting upload, push or a delete of an accepted file was refused"),
        Sub("volatile", vol_cases, vol_run, quick=160, thorough=6000, shards=8,
            rule="uploads, pushes and deletes on volatile indexes against the reference model; non-trivial if something was overwritten or deleted"),
    ]
