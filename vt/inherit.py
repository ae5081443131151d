"""Graphs of indexes inheriting from each other, and what they have to show."""
import json
from urllib.parse import urljoin, urlsplit
from hypothesis import strategies as st
from vt.core import check, check_equal
from vt.gen import weighted, op
from vt.observe import anchors
from vt.upstream import Pypi

NPRIV = 4
NAMES = [["my-pkg", "My_Pkg", "my.pkg"], ["other"]]
JSON_TYPE = "application/vnd.pypi.simple.v1+json"


def norm(name):
    return Pypi.norm(name)


def fname(p, v, typ):
    return "%s-%d.0%s" % (NAMES[p][0].replace("-", "_"), v, [".tar.gz", ".zip", "-py3-none-any.whl"][typ])


all_st = st.integers(0, NPRIV + 1)      # the last two are mirrors
priv_st = st.integers(0, NPRIV - 1)
p_st = st.sampled_from([0, 0, 0, 1])
file_st = st.tuples(p_st, st.integers(1, 3), st.integers(0, 2), st.integers(0, 3)).map(list)
wl_entry = st.sampled_from(["my-pkg", "My_Pkg", "my.pkg", "*", "other", "my", "pkg", "unrelated"])
inh_st = st.sampled_from([None, "union", "union", "intersection"])


def cases(mirrors, max_ops=4):
    ref = all_st if mirrors else priv_st
    base_st = st.lists(ref, max_size=3)
    wl = st.lists(wl_entry, max_size=2, unique=True) if mirrors else st.just([])
    inh = inh_st if mirrors else st.none()
    opl = [
        (3, op("bases", i=priv_st, bases=base_st)),
        (2, op("upload", i=priv_st, f=file_st, sp=st.integers(0, 2))),
        (1, op("register", i=priv_st, p=p_st, sp=st.integers(0, 2))),
        (1, op("delproj", i=priv_st, p=p_st)),
        (1, op("delindex", i=priv_st)),
    ]
    if mirrors:
        opl += [(3, op("wl", i=priv_st, wl=wl, inh=inh)), (1, op("inh", i=priv_st, inh=st.sampled_from(["union", "intersection"])))]
    return st.fixed_dictionaries(dict(
        privs=st.lists(st.fixed_dictionaries(dict(bases=base_st, wl=wl, inh=inh, files=st.lists(file_st, max_size=4), reg=st.booleans())), min_size=NPRIV, max_size=NPRIV),
        mirrors=st.lists(st.fixed_dictionaries(dict(files=st.lists(file_st, max_size=4), nolist=st.sampled_from([False, False, False, True]), down=st.sampled_from([False, False, False, False, True]))),
                         min_size=2 if mirrors else 0, max_size=2 if mirrors else 0),
        ops=st.lists(weighted(*opl), max_size=max_ops)))


class Stage:
    def __init__(self, name, mirror=False):
        self.name = name
        self.mirror = mirror
        self.bases = []
        self.wl = []
        self.inh = "intersection"
        self.files = {}       # (project, filename) -> (version, content)
        self.known = {}       # project -> set of versions
        self.down = self.nolist = False


class Graph:
    def __init__(self, case, ctx, ups):
        from vt.server import Server
        from vt.upstream import File
        self.ctx = ctx
        s = self.server = Server(opts=["--request-timeout", "5"])
        s.login("root")
        self.stages = {}
        self.order = []
        for n, m in enumerate(case["mirrors"]):
            up = ups[n]
            up.projects.clear()
            up.noise = []
            up.page_fault = up.list_fault = None
            stage = Stage("root/m%d" % n, True)
            stage.nolist, stage.down = m["nolist"], m["down"]
            titles = ["My.Pkg", "other"]
            for p, v, typ, c in m["files"]:
                fn = fname(p, v, typ)
                if (norm(titles[p]), fn) in stage.files:
                    continue
                content = b"mirror%d %d" % (n, c)
                up.projects.setdefault(titles[p], []).append(File(fn, content))
                stage.files[norm(titles[p]), fn] = ("%d.0" % v, content)
                stage.known.setdefault(norm(titles[p]), set()).add("%d.0" % v)
            if stage.down:
                from vt.upstream import Reply
                up.page_fault = up.list_fault = Reply(500)
            kw = dict(mirror_no_project_list=True) if stage.nolist else {}
            r = s.create_index(stage.name, user="root", type="mirror", mirror_url=up.url + "/simple/", volatile=False, **kw)
            assert r.status_code == 200, r
            self.stages[stage.name] = stage
        for n, d in enumerate(case["privs"]):
            stage = Stage("root/i%d" % n)
            self.stages[stage.name] = stage
            r = s.create_index(stage.name, user="root")
            assert r.status_code == 200, r
            for f in d["files"]:
                self.upload(stage, f, 0)
            if d["reg"]:
                self.register(stage, 0, n)
        self.mnames = [x.name for x in self.stages.values() if x.mirror]
        for n, d in enumerate(case["privs"]):
            self.do(dict(op="bases", i=n, bases=d["bases"]))
            if d["wl"] or d["inh"]:
                self.do(dict(op="wl", i=n, wl=d["wl"], inh=d["inh"]))

    def ref(self, i):
        if i < NPRIV:
            return "root/i%d" % i
        return "root/m%d" % (i - NPRIV)

    def upload(self, stage, f, sp):
        p, v, typ, c = f
        fn = fname(p, v, typ)
        name = NAMES[p][sp % len(NAMES[p])]
        content = ("%s %d" % (stage.name, c)).encode()
        r = self.server.upload(stage.name, name, "%d.0" % v, fn, content, user="root", extra=[("summary", "of " + stage.name)])
        check_equal(r.status_code, 200, "upload %s to %s" % (fn, stage.name))
        stage.files[norm(name), fn] = ("%d.0" % v, content)
        stage.known.setdefault(norm(name), set()).add("%d.0" % v)

    def register(self, stage, p, sp):
        name = NAMES[p][sp % len(NAMES[p])]
        r = self.server.post_form("/%s/" % stage.name, [(":action", "submit"), ("name", name), ("version", "1.0"), ("summary", "of " + stage.name)], user="root")
        check_equal(r.status_code, 200, "register %s on %s" % (name, stage.name))
        stage.known.setdefault(norm(name), set()).add("1.0")

    def patch(self, stage, items):
        return self.server.send_json("PATCH", "/" + stage.name, items, user="root")

    def do(self, o):
        k = o["op"]
        stage = self.stages.get("root/i%d" % o["i"])
        if stage is None:
            return False
        what = json.dumps(o)
        if k == "bases":
            bases = [self.ref(b) for b in o["bases"]]
            missing = [b for b in bases if b not in self.stages]
            r = self.patch(stage, ["bases=" + ",".join(bases)])
            if missing:
                check_equal(r.status_code, 400, "%s with missing bases %r" % (what, missing))
            else:
                check_equal(r.status_code, 200, what)
                stage.bases = bases
        elif k in ("wl", "inh"):
            items = []
            if k == "wl":
                items.append("mirror_whitelist=" + ",".join(o["wl"]))
            if o["inh"]:
                items.append("mirror_whitelist_inheritance=" + o["inh"])
            r = self.patch(stage, items)
            if any(b not in self.stages for b in stage.bases):
                # the whole configuration is validated again
                check(r.status_code in (200, 400), "%s: %s" % (what, r.status_code))
                if r.status_code == 400:
                    return True
            else:
                check_equal(r.status_code, 200, what)
            stage.wl = o.get("wl", stage.wl)
            stage.inh = o["inh"] or stage.inh
        elif k == "upload":
            self.upload(stage, o["f"], o["sp"])
        elif k == "register":
            self.register(stage, o["p"], o["sp"])
        elif k == "delproj":
            p = norm(NAMES[o["p"]][0])
            r = self.server.delete("/%s/%s" % (stage.name, p), user="root")
            if p in stage.known:
                check_equal(r.status_code, 200, what)
                del stage.known[p]
                for key in [x for x in stage.files if x[0] == p]:
                    del stage.files[key]
        elif k == "delindex":
            r = self.server.delete("/" + stage.name, user="root")
            check_equal(r.status_code, 201, what)
            del self.stages[stage.name]
        return True

    # -- the reference

    def sro(self, name):
        """breadth first, every index once, mirrors last"""
        order, mirrors, todo = [], [], [name]
        while todo:
            n = todo.pop(0)
            if n in order or n in mirrors or n not in self.stages:
                continue
            if self.stages[n].mirror:
                mirrors.append(n)
            else:
                order.append(n)
                todo.extend(self.stages[n].bases)
        return order, mirrors

    def whitelisted(self, name, project):
        order, mirrors = self.sro(name)
        if not order:
            return False
        lists = [self.stages[order[0]].wl]
        if self.stages[order[0]].inh == "union":
            lists = [self.stages[n].wl for n in order]
        return any(w == "*" or norm(w) == project for wl in lists for w in wl)

    def consulted(self, name, project):
        """(certain stages in order, optional stages, blocked)"""
        order, mirrors = self.sro(name)
        certain = [n for n in order if project in self.stages[n].known]
        hit = bool(certain)
        wl = self.whitelisted(name, project)
        optional = set()
        blocked = hit and not wl
        if not blocked:
            for m in mirrors:
                s = self.stages[m]
                if s.down or project not in s.known:
                    continue
                certain.append(m)
                if s.nolist and hit:
                    optional.add(m)
        return certain, optional, blocked

    def files_of(self, stages, project):
        out = {}
        for n in stages:
            for (p, fn), (v, content) in self.stages[n].files.items():
                if p == project:
                    out.setdefault(fn, (n, content))
        return out

    # -- comparison

    def page(self, name, project, form):
        path = "/%s/+simple/%s/" % (name, project)
        if form == "json":
            r = self.server.get(path, accept=JSON_TYPE)
            if r.status_code != 200:
                return r, None
            return r, [(f["filename"], urlsplit(urljoin("http://localhost" + path, f["url"])).path) for f in r.json["files"]]
        r = self.server.get(path, accept="text/html" if form == "html" else "*/*", headers={} if form == "html" else {"User-Agent": "pip/24"})
        if r.status_code != 200:
            return r, None
        return r, [(text, urlsplit(urljoin("http://localhost" + path, a["href"])).path) for a, text in anchors(r.text)]

    def compare(self, name, project, fetch=False):
        order, mirrors = self.sro(name)
        certain, optional, blocked = self.consulted(name, project)
        any_down = any(self.stages[m].down for m in mirrors) and not blocked
        what = "%s on %s (order %s%s)" % (project, name, ",".join(order + mirrors), ", blocked" if blocked else "")
        for form in ("html", "json", "pip"):
            r, got = self.page(name, project, form)
            if not certain:
                ok = {404}
                if any_down:
                    ok |= {502, 200}
                check(r.status_code in ok, "%s: %s page answered with %s" % (what, form, r.status_code))
                if r.status_code == 200:
                    check_equal(got, [], "%s: %s page" % (what, form))
                continue
            check_equal(r.status_code, 200, "%s: status of the %s page" % (what, form))
            names = [x[0] for x in got]
            check_equal(len(set(names)), len(names), "%s: %s page lists a file twice: %r" % (what, form, sorted(names)))
            got_at = {fn: path for fn, path in got}
            show = {fn: "/".join(path.split("/")[1:3]) for fn, path in got}
            want = [{fn: n for fn, (n, c) in self.files_of(certain, project).items()}]
            if optional:
                want.append({fn: n for fn, (n, c) in self.files_of([n for n in certain if n not in optional], project).items()})
                want += [{fn: n for fn, (n, c) in self.files_of([n for n in certain if n != m], project).items()} for m in optional]
            check(show in want, "%s: %s page shows %r, expected %r" % (what, form, show, want[0]))
            if form == "html" and blocked and mirrors:
                check("mirror_whitelist" in r.text and mirrors[0] in r.text, "%s: no note about the blocked mirror" % what)
                self.ctx.mark("blocked")
            elif form == "html" and not optional and not any_down:
                check("mirror_whitelist" not in r.text, "%s: note about a blocked mirror" % what)
            if fetch and form == "json":
                full = self.files_of(certain, project)
                for fn, path in got_at.items():
                    f = self.server.get(path, accept=None)
                    if full[fn][0] == show[fn]:
                        check_equal((f.status_code, f.body), (200, full[fn][1]), "%s: content of %s" % (what, fn))
        self.compare_versions(name, project, what, certain, optional, any_down)
        if len(certain) > 1:
            self.ctx.mark("merged")
        if len([c for c in certain if self.stages[c].mirror]) and len(certain) > 1:
            self.ctx.label("mixed")

    def compare_versions(self, name, project, what, certain, optional, any_down):
        r = self.server.get("/%s/%s" % (name, project))
        if not certain:
            if any_down:
                check(r.status_code in (404, 502) or r.status_code == 200 and not r.json["result"], "%s: versions answered with %s" % (what, r.status_code))
            else:
                check_equal(r.status_code, 404, "%s: status of the versions" % what)
            return
        check_equal(r.status_code, 200, "%s: status of the versions" % what)
        if optional:
            return
        got = {}
        for v, d in r.json["result"].items():
            rest = d.get("+shadowing", [])
            got[v] = [self.origin(x) for x in [d] + rest]
        want = {}
        for n in certain:
            for v in self.stages[n].known[project]:
                want.setdefault(v, []).append(n)
        check_equal(got, want, "%s: origins of the versions" % what)

    def origin(self, d):
        """which index the version data came from"""
        if d.get("summary", "").startswith("of "):
            return d["summary"][3:]
        links = d.get("+links") or []
        origins = {"/".join(urlsplit(x["href"]).path.split("/")[1:3]) for x in links}
        return "+".join(sorted(origins))

    def compare_list(self, name):
        order, mirrors = self.sro(name)
        r = self.server.get("/%s/+simple/" % name, accept=JSON_TYPE)
        if r.status_code != 200:
            check(any(self.stages[m].down for m in mirrors), "project list of %s answered with %s" % (name, r.status_code))
            return
        got = [x["name"] for x in r.json["projects"]]
        check_equal(len(set(got)), len(got), "project list of %s: duplicates in %r" % (name, got))
        want, maybe = set(), set()
        for n in order + mirrors:
            s = self.stages[n]
            if s.mirror and (s.down or s.nolist):
                maybe |= set(s.known)
            else:
                want |= set(s.known)
        check(want <= set(got) <= want | maybe, "project list of %s is %r, expected %r" % (name, sorted(got), sorted(want)))
        hr = self.server.get("/%s/+simple/" % name, accept="text/html")
        hg = sorted(t for a, t in anchors(hr.text))
        check_equal(hg, sorted(got), "project list of %s: HTML" % name)

    def compare_all(self, fetch=False):
        for name in list(self.stages):
            if self.stages[name].mirror:
                continue
            self.compare_list(name)
            for p in NAMES:
                self.compare(name, norm(p[0]), fetch)


def run(case, ctx, ups):
    g = Graph(case, ctx, ups)
    try:
        g.compare_all(fetch=True)
        for o in case["ops"]:
            if g.do(o):
                g.compare_all()
        for up in ups:
            check(not up.errors, "harness: %r" % up.errors)
    finally:
        g.server.close()
