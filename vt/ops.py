"""Operation vocabulary and reference model for private indexes.

The model is written from the documented behaviour (uploads replace or are
refused, deletes remove exactly the addressed thing, names are normalised);
it never looks at the server's storage.
"""
import hashlib
import re
from urllib.parse import quote, unquote, urlsplit
from hypothesis import strategies as st
from vt.core import check, check_equal, Violation
from vt.gen import weighted
from vt import observe

PROJECTS = [
    ["foo-bar", "Foo.Bar", "foo_bar", "FOO-bar"],
    ["pkg", "PKG", "Pkg"],
    ["x-y-2", "x.y_2", "X_Y.2"],
    ["pkg1", "pkg1"],
]
VERSIONS = ["1.0", "1.0.1", "2.0a1", "1.0+l", "v 3"]
TYPES = ["sdist", "zip", "wheel", "egg"]
CONTENTS = [b"", b"a", b"content-b", b"\x00\xff\r\n" * 300, b"x" * 70000]
USERS = ["u1", "u2"]
INDEXES = ["u1/a", "u1/b", "u2/c"]
LIST_FIELDS = ('platform', 'classifiers', 'obsoletes', 'requires', 'provides', 'obsoletes_dist',
               'provides_dist', 'requires_dist', 'requires_external', 'project_urls', 'supported_platform')
ALL_FIELDS = (
    'name', 'version', 'summary', 'home_page', 'author', 'author_email', 'maintainer', 'maintainer_email',
    'license', 'description', 'keywords', 'platform', 'classifiers', 'download_url', 'supported_platform',
    'comment', 'provides', 'requires', 'obsoletes', 'project_urls', 'provides_dist', 'obsoletes_dist',
    'requires_dist', 'requires_external', 'requires_python', 'description_content_type', 'provides_extras')


def norm(name):
    return re.sub("[^A-Za-z0-9]+", "-", name).lower()


def filename(spelled, version, typ):
    if typ == "sdist":
        return "%s-%s.tar.gz" % (spelled, version)
    if typ == "zip":
        return "%s-%s.zip" % (spelled, version)
    if typ == "egg":
        return "%s-%s-py2.7.egg" % (re.sub(r"[^\w.]+", "_", spelled), version)
    return "%s-%s-py3-none-any.whl" % (re.sub(r"[^\w]+", "_", spelled), re.sub(r"[^\w\d.]+", "_", version))


# -- strategies

_ix = st.integers(0, len(INDEXES) - 1)
_p = weighted((3, st.integers(0, 1)), (1, st.integers(0, len(PROJECTS) - 1)))
_v = weighted((3, st.integers(0, 1)), (1, st.integers(0, len(VERSIONS) - 1)))
_c = weighted((4, st.integers(1, 2)), (1, st.integers(0, len(CONTENTS) - 1)))
_sp = st.integers(0, 3)
_pick = weighted((1, st.none()), (4, st.integers(0, 12)))
_meta = st.dictionaries(st.sampled_from(["summary", "requires_python", "classifiers", "license", "author", "project_urls"]),
                        st.sampled_from(["", "UNKNOWN", ">=3.6", "<4 & é", "x\ny"]), max_size=3)


def S(name, **kw):
    return st.fixed_dictionaries(dict(op=st.just(name), **kw))


def op_strategy(ix=_ix, manage=True, push=True, volatile=True, submit=True, deletes=True, docs=True, tox=True, force=True):
    f = weighted((3, st.just(False)), (2, st.just(True))) if force else st.just(False)
    table = [(10, S("upload", ix=ix, p=_p, v=_v, t=st.integers(0, len(TYPES) - 1), c=_c, sp=_sp, meta=_meta))]
    if submit:
        table.append((2, S("submit", ix=ix, p=_p, v=_v, sp=_sp, meta=_meta)))
    if docs:
        table.append((2, S("doc", ix=ix, p=_p, v=st.one_of(st.none(), _v), c=_c, sp=_sp, meta=_meta)))
    if tox:
        table.append((3, S("tox", ix=ix, which=st.integers(0, 20), c=st.integers(0, 3))))
    if deletes:
        table += [(3, S("delfile", ix=ix, which=st.integers(0, 20), force=f)),
                  (2, S("delver", ix=ix, p=_p, v=_v, sp=_sp, force=f, pick=_pick)),
                  (1, S("delproj", ix=ix, p=_p, v=st.just(0), sp=_sp, force=f, pick=_pick))]
    if push:
        table.append((3, S("push", ix=ix, to=ix, p=_p, v=_v, sp=_sp, pick=_pick, docs=st.sampled_from([None, None, "no_docs", "only_docs"]))))
    if volatile:
        table.append((1, S("volatile", ix=ix, value=st.booleans())))
    if manage:
        table += [(1, S("delindex", ix=ix)), (2, S("mkindex", ix=ix, value=st.booleans())),
                  (1, S("deluser", u=st.integers(0, 1))), (1, S("mkuser", u=st.integers(0, 1)))]
    return weighted(*table)


def sha(c):
    return hashlib.sha256(c).hexdigest()


class Link:
    def __init__(self, rel, basename, content, logs, for_=None):
        self.rel = rel
        self.basename = basename     # None: chosen by the server
        self.content = content
        self.logs = logs
        self.for_ = for_
        self.href = None

    def copy(self, for_=None):
        return Link(self.rel, self.basename, self.content, list(self.logs), for_)


class Ver:
    def __init__(self):
        self.meta = {}
        self.links = []


class Index:
    def __init__(self, volatile):
        self.volatile = volatile
        self.projects = {}

    def all_links(self):
        return [(p, v, lk) for p, vs in self.projects.items() for v, ver in vs.items() for lk in ver.links]


def default_meta():
    return {k: ([] if k in LIST_FIELDS else "") for k in ALL_FIELDS}


def meta_form(name, version, meta):
    fields = [("name", name)]
    if version is not None:
        fields.append(("version", version))
    for k in sorted(meta):
        fields.append((k, meta[k]))
    return fields


def meta_values(name, version, meta):
    new = dict(name=name, version=version)
    for k, v in meta.items():
        if k in LIST_FIELDS:
            new[k] = [v] if v else []
        else:
            new[k] = "" if v == "UNKNOWN" else v
    return new


class Model:
    def __init__(self, server, indexes=INDEXES):
        self.server = server
        self.index_names = indexes
        self.users = {}
        self.extra = set()       # names of users that are not part of the model
        self.gone = set()        # paths of files that must not be served
        self.outcomes = {}
        self.touched = None

    def ix(self, i):
        return self.index_names[i % len(self.index_names)]

    def get(self, name):
        u, i = name.split("/")
        return self.users.get(u, {}).get(i)

    def setup(self, volatile=(True, False, True)):
        for i, name in enumerate(self.index_names):
            u = name.split("/")[0]
            if u not in self.users:
                self.run(dict(op="mkuser", u=USERS.index(u)))
            self.run(dict(op="mkindex", ix=i, value=volatile[i % len(volatile)]))

    def run(self, op):
        """perform the request, check its status against the model, update the model"""
        r, want = self.request(op)
        if r is None:
            self.outcomes[op["op"] + ":skip"] = self.outcomes.get(op["op"] + ":skip", 0) + 1
            return None
        k = "%s:%s" % (op["op"], "ok" if r.status_code < 300 else "refused")
        self.outcomes[k] = self.outcomes.get(k, 0) + 1
        check(r.status_code in want, lambda: "%r answered %s %.300s, expected %r" % (op, r.status_code, r.text, want),
              key="status:%s" % op["op"])
        return r

    # every op returns (response, acceptable status codes)

    def request(self, op):
        s = self.server
        self.touched = None
        kind = op["op"]
        if kind == "mkuser":
            u = USERS[op["u"]]
            r = s.create_user(u)
            if u in self.users:
                return r, (409,)
            self.users[u] = {}
            return r, (201,)
        if kind == "deluser":
            u = USERS[op["u"]]
            r = s.delete("/" + u, user=u)
            if u not in self.users:
                return r, (404, 401, 403)
            if not all(ix.volatile for ix in self.users[u].values()):
                return r, (403,)
            for ix in self.users[u].values():
                self.drop_links(ix.all_links())
            del self.users[u]
            return r, (200,)
        name = self.ix(op["ix"])
        u, i = name.split("/")
        ix = self.get(name)
        self.touched = name
        if kind == "mkindex":
            r = s.create_index(name, volatile=op["value"])
            if u not in self.users:
                return r, (404, 401, 403)
            if ix is not None:
                return r, (409,)
            self.users[u][i] = Index(op["value"])
            return r, (200,)
        if kind == "delindex":
            r = s.delete("/" + name, user=u)
            if ix is None:
                return r, (404, 401, 403)
            if not ix.volatile:
                return r, (403,)
            self.drop_links(ix.all_links())
            del self.users[u][i]
            return r, (201, 200)
        if kind == "volatile":
            r = s.send_json("PATCH", "/" + name, ["volatile=%s" % op["value"]], user=u)
            if ix is None:
                return r, (404, 401, 403)
            ix.volatile = op["value"]
            return r, (200,)
        return getattr(self, "do_" + kind)(op, s, name, u, ix)

    def spelled(self, op):
        sp = PROJECTS[op["p"]]
        return sp[op["sp"] % len(sp)]

    def resolve(self, op, ix):
        """address an existing version instead of an arbitrary one"""
        if op.get("pick") is None or ix is None:
            return op
        have = [(p, v) for p, vs in ix.projects.items() for v in vs]
        if not have:
            return op
        p, v = have[op["pick"] % len(have)]
        return dict(op, p=[norm(x[0]) for x in PROJECTS].index(p), v=VERSIONS.index(v))

    def drop_links(self, triples):
        for _p, _v, lk in triples:
            if lk.href:
                self.gone.add(lk.href)

    def update_meta(self, ix, pname, version, new, full=False):
        vs = ix.projects.setdefault(norm(pname), {})
        ver = vs.setdefault(version, Ver())
        if full or not ver.meta:
            ver.meta.update(default_meta())
        ver.meta.update(new)
        return ver

    def do_submit(self, op, s, name, u, ix):
        pname, version = self.spelled(op), VERSIONS[op["v"]]
        r = s.post_form("/%s/" % name, [(":action", "submit")] + meta_form(pname, version, op["meta"]), user=u)
        if ix is None:
            return r, (404, 401, 403)
        self.update_meta(ix, pname, version, meta_values(pname, version, op["meta"]), full=True)
        return r, (200,)

    def store(self, ix, ver, rel, basename, content, logs):
        """returns the status; the file a second time under its name replaces or conflicts"""
        old = [lk for lk in ver.links if lk.rel == rel and lk.basename == basename]
        if old:
            if not ix.volatile:
                return 200 if old[0].content == content else 409
            n = sum(x[-1] for x in old[0].logs if x[0] == "overwrite")
            dead = [lk for lk in ver.links if lk is old[0] or lk.for_ is old[0]]
            self.drop_links((None, None, lk) for lk in dead)
            ver.links = [lk for lk in ver.links if lk not in dead]
            logs = [("overwrite", None, None, n + 1)] + logs
        ver.links.append(Link(rel, basename, content, logs))
        return 200

    def do_upload(self, op, s, name, u, ix):
        pname, version = self.spelled(op), VERSIONS[op["v"]]
        fn = filename(pname, version, TYPES[op["t"]])
        content = CONTENTS[op["c"]]
        r = s.post_form("/%s/" % name, [(":action", "file_upload")] + meta_form(pname, version, op["meta"]),
                        file=("content", fn, content), user=u)
        if ix is None:
            return r, (404, 401, 403)
        old = [lk for lk in ix.projects.get(norm(pname), {}).get(version, Ver()).links if lk.rel == "releasefile" and lk.basename == fn]
        if old and not ix.volatile:
            if old[0].content != content:
                return r, (409,)
            # an identical upload may refresh the metadata, it never touches the file
            ix.projects[norm(pname)][version].meta_uncertain = True
            self.update_meta(ix, pname, version, meta_values(pname, version, op["meta"]))
            return r, (200,)
        ver = self.update_meta(ix, pname, version, meta_values(pname, version, op["meta"]))
        self.store(ix, ver, "releasefile", fn, content, [("upload", u, name)])
        return r, (200,)

    def do_doc(self, op, s, name, u, ix):
        pname = self.spelled(op)
        version = None if op["v"] is None else VERSIONS[op["v"]]
        content = CONTENTS[op["c"]]
        meta = op["meta"] if version is not None else {}
        r = s.post_form("/%s/" % name, [(":action", "doc_upload")] + meta_form(pname, version, meta),
                        file=("content", "docs.zip", content), user=u)
        if ix is None:
            return r, (404, 401, 403)
        proj = ix.projects.get(norm(pname), {})
        if version is None:
            if not proj:
                return r, (400,)
            version = latest(proj)
            ver = proj[version]
        else:
            ver = proj.get(version)
        fn = "%s-%s.doc.zip" % (norm(pname), version)
        old = [lk for lk in ver.links if lk.rel == "doczip" and lk.basename == fn] if ver is not None else []
        if old and not ix.volatile:
            if old[0].content != content:
                return r, (409,)
            if op["v"] is not None:
                self.update_meta(ix, pname, version, meta_values(pname, version, meta))
            return r, (200,)
        if op["v"] is not None:
            ver = self.update_meta(ix, pname, version, meta_values(pname, version, meta))
        self.store(ix, ver, "doczip", fn, content, [("upload", u, name)])
        return r, (200,)

    def pick(self, ix, which, rels=None):
        c = [t for t in ix.all_links() if rels is None or t[2].rel in rels]
        return c[which % len(c)] if c else None

    def do_tox(self, op, s, name, u, ix):
        t = self.pick(ix, op["which"], ("releasefile",)) if ix is not None else None
        if t is None:
            return None, ()
        p, v, lk = t
        body = b'{"testenvs": {}, "n": %d}' % op["c"]
        self.learn(name, p)
        r = s.request("POST", quote(lk.href), body, headers={"Content-Type": "application/json", "Accept": "application/json"}, user=u)
        ix.projects[p][v].links.append(Link("toxresult", None, body, [("upload", u, name)], for_=lk))
        return r, (200,)

    def do_delfile(self, op, s, name, u, ix):
        t = self.pick(ix, op["which"]) if ix is not None else None
        if t is None:
            return None, ()
        p, v, lk = t
        self.learn(name, p)
        r = s.delete(quote(lk.href) + ("?force" if op["force"] else ""), user=u)
        if not ix.volatile and not op["force"]:
            return r, (403,)
        vers = ix.projects[p]
        ver = vers[v]
        dead = [x for x in ver.links if x is lk or x.for_ is lk]
        self.drop_links((p, v, x) for x in dead)
        ver.links = [x for x in ver.links if x not in dead]
        if not ver.links:
            del vers[v]
            if not vers:
                del ix.projects[p]
        return r, (200,)

    def do_delver(self, op, s, name, u, ix):
        op = self.resolve(op, ix)
        pname, v = self.spelled(op), VERSIONS[op["v"]]
        p = norm(pname)
        if ix is not None and p in ix.projects:
            self.learn(name, p)
        r = s.delete("/%s/%s/%s" % (name, quote(pname), quote(v)) + ("?force" if op["force"] else ""), user=u)
        if ix is None:
            return r, (404, 401, 403)
        if not ix.volatile and not op["force"]:
            return r, (403,)
        if v not in ix.projects.get(p, {}):
            return r, (404,)
        self.drop_links((p, v, lk) for lk in ix.projects[p][v].links)
        del ix.projects[p][v]
        if not ix.projects[p]:
            del ix.projects[p]
        return r, (200,)

    def do_delproj(self, op, s, name, u, ix):
        op = self.resolve(op, ix)
        pname = self.spelled(op)
        p = norm(pname)
        if ix is not None and p in ix.projects:
            self.learn(name, p)
        r = s.delete("/%s/%s" % (name, quote(pname)) + ("?force" if op["force"] else ""), user=u)
        if ix is None:
            return r, (404, 401, 403)
        if not ix.volatile and not op["force"]:
            return r, (403,)
        if p not in ix.projects:
            return r, (404,)
        self.drop_links((p, v, lk) for v, ver in ix.projects[p].items() for lk in ver.links)
        del ix.projects[p]
        return r, (200,)

    def do_push(self, op, s, name, u, ix):
        op = self.resolve(op, ix)
        pname, v = self.spelled(op), VERSIONS[op["v"]]
        p = norm(pname)
        to = self.ix(op["to"])
        if ix is None or self.get(to) is None or to == name:
            return None, ()
        tu = to.split("/")[0]
        target = self.get(to)
        data = dict(name=pname, version=v, targetindex=to)
        if op["docs"]:
            data[op["docs"]] = True
        # the owner of the target pushes
        r = s.send_json("POST", "/" + name, data, user=tu)
        ver = ix.projects.get(p, {}).get(v)
        if ver is None:
            return r, (400, 404)
        rels = {"no_docs": ("releasefile", "toxresult"), "only_docs": ("doczip",), None: ("releasefile", "doczip", "toxresult")}[op["docs"]]
        links = [lk for lk in ver.links if lk.rel in rels]
        if not links:
            return r, (404,)
        self.touched = to
        tver = target.projects.get(p, {}).get(v)
        todo = [lk for lk in links if lk.rel == "releasefile"] + [lk for lk in links if lk.rel == "doczip"]
        if not target.volatile and tver is not None:
            for lk in todo:
                if any(x.rel == lk.rel and x.basename == lk.basename for x in tver.links):
                    return r, (409,)     # and nothing changes
        tver = self.update_meta(target, p, v, dict(ver.meta))
        pushlog = ("push", tu, name, to)
        for lk in todo:
            self.store(target, tver, lk.rel, lk.basename, lk.content, [])
            new = tver.links[-1]
            new.logs += [x for x in lk.logs if x[0] != "overwrite"] + [pushlog] if lk.rel == "releasefile" else list(lk.logs) + [pushlog]
            if lk.rel == "releasefile":
                for tx in links:
                    if tx.rel == "toxresult" and tx.for_ is lk:
                        n = tx.copy(for_=new)
                        n.logs = [x for x in n.logs if x[0] != "overwrite"] + [pushlog]
                        n.href = None
                        tver.links.append(n)
        return r, (200,)

    # -- comparing

    def learn(self, name, p):
        """find out under which URL the server offers the files of a project"""
        self.compare_project(name, p, deep=False)

    def compare_project(self, name, p, deep=True, seen=None):
        s = self.server
        ix = self.get(name)
        r = s.get("/%s/%s?ignore_bases=1" % (name, quote(p)))
        check_equal(r.status_code, 200, "status of project %s/%s" % (name, p))
        got = r.json["result"]
        vers = ix.projects[p]
        check_equal(sorted(got), sorted(vers), "versions of %s/%s" % (name, p), key="versions")
        for v, ver in vers.items():
            g = dict(got[v])
            links = g.pop("+links", [])
            want = {k: x for k, x in ver.meta.items()}
            if deep:
                for k in sorted(set(g) | set(want)):
                    check_equal(g.get(k), want.get(k), "metadata %r of %s/%s/%s" % (k, name, p, v), key="metadata")
            self.match_links("%s/%s/%s" % (name, p, v), links, ver)
            if deep:
                one = s.get("/%s/%s/%s" % (name, quote(p), quote(v)))
                check_equal(one.status_code, 200, "status of version %s/%s/%s" % (name, p, v))
                res = one.json["result"]
                if seen is None:     # without bases both views are the same
                    check_equal(res, got[v], "version view of %s/%s/%s compared to the project view" % (name, p, v))
        if not deep:
            return
        # simple page
        page = observe.simple_page(s, name, p)
        check(isinstance(page, list) and (not page or isinstance(page[0], list)), lambda: "simple page of %s/%s: %r" % (name, p, page))
        want = sorted((lk.basename, "sha256=" + sha(lk.content), ver.meta.get("requires_python") or None)
                      for ver in vers.values() for lk in ver.links if lk.rel == "releasefile")
        check_equal(sorted((x[0], x[2], x[3] or None) for x in page), want, "simple page of %s/%s" % (name, p), key="simple")
        hrefs = {lk.href for ver in vers.values() for lk in ver.links}
        for x in page:
            check(unquote(x[1]) in hrefs, lambda: "simple page link %r is not among the version's links %r" % (x[1], hrefs))

    def match_links(self, what, links, ver):
        gl = list(links)
        check_equal(len(gl), len(ver.links), "number of links of %s (%r)" % (what, [x.get("href") for x in gl]), key="links")
        used = set()
        # release files and docs by name, results by what they belong to
        for lk in sorted(ver.links, key=lambda x: x.for_ is not None):
            found = None
            for i, g in enumerate(gl):
                if i in used:
                    continue
                path = urlsplit(g["href"]).path
                upath = unquote(path)
                if g["rel"] != lk.rel or g["hash_spec"] != "sha256=" + sha(lk.content):
                    continue
                if lk.basename is not None and upath.split("/")[-1] != lk.basename:
                    continue
                if lk.href is not None and lk.href != upath:
                    continue
                if lk.for_ is not None and unquote(urlsplit(g.get("for_href", "")).path) != lk.for_.href:
                    continue
                if lk.for_ is None and "for_href" in g:
                    continue
                logs = [logkey(x) for x in g["log"]]
                if logs != [tuple(x) for x in lk.logs]:
                    found = ("logs", logs)
                    continue
                found = i
                break
            check(found is not None and not isinstance(found, tuple),
                  lambda: "%s: no link for %s %s (%d bytes, logs %r) in %r" % (what, lk.rel, lk.basename, len(lk.content), lk.logs, found or gl), key="links")
            used.add(found)
            lk.href = unquote(urlsplit(gl[found]["href"]).path)

    def compare_index(self, name, files=True):
        s = self.server
        ix = self.get(name)
        r = s.get("/" + name)
        if ix is None:
            check_equal(r.status_code, 404, "status of the missing index %s" % name)
            return
        check_equal(r.status_code, 200, "status of index %s" % name)
        res = r.json["result"]
        check_equal(res["volatile"], ix.volatile, "volatile of %s" % name)
        check_equal(res["projects"], sorted(ix.projects), "projects of %s" % name, key="projects")
        names = [t for a, t in observe.anchors(s.get("/%s/+simple/" % name, accept="text/html").text)]
        check_equal(sorted(names), sorted(ix.projects), "simple index of %s" % name, key="projects")
        for p in ix.projects:
            self.compare_project(name, p)
        for sp in PROJECTS:
            p = norm(sp[0])
            if p not in ix.projects:
                check_equal(s.get("/%s/%s" % (name, p)).status_code, 404, "status of the missing project %s/%s" % (name, p))
                check_equal(s.get("/%s/+simple/%s/" % (name, p)).status_code, 404, "status of the simple page of the missing project %s/%s" % (name, p))
                for v in VERSIONS[:2]:
                    check_equal(s.get("/%s/%s/%s" % (name, p, v)).status_code, 404, "status of a version of the missing project %s/%s" % (name, p))
        if files:
            for p, v, lk in ix.all_links():
                f = s.get(quote(lk.href), accept=None)
                check(f.status_code == 200 and f.body == lk.content,
                      lambda: "file %s has status %s and %d bytes, expected %d bytes" % (lk.href, f.status_code, len(f.body), len(lk.content)), key="content")

    def live(self):
        return {lk.href for ixs in self.users.values() for ix in ixs.values() for _p, _v, lk in ix.all_links()}

    def compare_all(self):
        s = self.server
        root = s.get("/").json["result"]
        check_equal(sorted(set(root) - {"root"} - self.extra), sorted(self.users), "users")
        for u, ixs in self.users.items():
            check_equal(sorted(root[u].get("indexes", {})), sorted(ixs), "indexes of %s" % u)
        for name in self.index_names:
            self.compare_index(name)
        live = self.live()
        for h in sorted(self.gone - live):
            for accept in (None, "application/json"):
                r = s.get(quote(h), accept=accept)
                check(r.status_code in (404, 410), lambda: "the deleted file %s is still answered with %s" % (h, r.status_code), key="gone")


def logkey(x):
    if x["what"] == "overwrite":
        return ("overwrite", None, None, x["count"])
    if x["what"] == "push":
        return ("push", x["who"], x["src"], x["dst"])
    return (x["what"], x["who"], x.get("dst"))


def latest(versions):
    """the newest of the version strings used here"""
    from packaging.version import Version, InvalidVersion

    def k(v):
        try:
            return (1, Version(v), "")
        except InvalidVersion:
            return (0, Version("0"), v)
    return max(versions, key=k)
