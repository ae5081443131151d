"""Everything a client can see of a server, in a comparable form."""
import hashlib
import re
from urllib.parse import quote, urljoin, urlsplit, unquote
from html.parser import HTMLParser

VOLATILE_KEYS = {"when", "created", "modified"}


class Anchors(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.links = []
        self._cur = None

    def handle_starttag(self, tag, attrs):
        if tag == "a":
            self._cur = [dict(attrs), ""]

    def handle_data(self, data):
        if self._cur is not None:
            self._cur[1] += data

    def handle_endtag(self, tag):
        if tag == "a" and self._cur is not None:
            self.links.append((self._cur[0], self._cur[1]))
            self._cur = None


def anchors(html):
    p = Anchors()
    p.feed(html)
    p.close()
    return p.links


def strip(v, keep_time=False):
    if isinstance(v, dict):
        return {k: strip(x, keep_time) for k, x in v.items() if keep_time or k not in VOLATILE_KEYS}
    if isinstance(v, list):
        return [strip(x, keep_time) for x in v]
    if isinstance(v, str) and v.startswith("http://"):
        return re.sub(r"^http://[^/]+", "", v)
    return v


def fetch(server, url, user=None):
    r = server.get(url, accept=None, user=user)
    if r.status_code == 200:
        return [200, len(r.body), hashlib.sha256(r.body).hexdigest()]
    return [r.status_code]


def simple_page(server, index, project, user=None):
    """[(filename, path, hash fragment, requires_python, yanked)] from the HTML page or the status"""
    base = "/%s/+simple/%s/" % (index, quote(project))
    r = server.get(base, accept="text/html", user=user)
    if r.status_code != 200:
        return [r.status_code]
    out = []
    for attrs, text in anchors(r.text):
        href = attrs.get("href", "")
        if "+simple" in href and href.endswith("/"):
            continue
        u = urlsplit(urljoin("http://localhost" + base, href))
        out.append([text, u.path, u.fragment, attrs.get("data-requires-python"), "data-yanked" in attrs])
    return out


def observe_index(server, index, projects=None, files=True, simple=True, user=None, keep_time=False):
    r = server.get("/" + index, user=user)
    if r.status_code != 200:
        return dict(status=r.status_code)
    res = r.json["result"]
    names = sorted(res.get("projects", []))
    out = dict(config={k: v for k, v in strip(res, keep_time).items() if k != "projects"}, projects={})
    for name in (names if projects is None else projects):
        p = server.get("/%s/%s" % (index, quote(name)), user=user)
        if p.status_code != 200:
            out["projects"][name] = dict(status=p.status_code)
            continue
        vd = strip(p.json["result"], keep_time)
        d = dict(versions=vd)
        if simple:
            d["simple"] = simple_page(server, index, name, user=user)
        if files:
            d["files"] = {}
            for ver, data in p.json["result"].items():
                for link in data.get("+links", ()):
                    d["files"][urlsplit(link["href"]).path] = fetch(server, link["href"], user=user)
        out["projects"][name] = d
    return out


def observe(server, indexes=None, user=None, keep_time=False, **kw):
    root = server.get("/", user=user)
    users = root.json["result"] if root.status_code == 200 else {}
    out = dict(users={}, indexes={})
    for u, cfg in sorted(users.items()):
        out["users"][u] = {k: v for k, v in strip(cfg, keep_time).items() if k != "indexes"}
        for ix in sorted(cfg.get("indexes", {})):
            name = "%s/%s" % (u, ix)
            if indexes is not None and name not in indexes:
                continue
            out["indexes"][name] = observe_index(server, name, user=user, keep_time=keep_time, **kw)
    return out


def diff(a, b, path="", out=None, limit=6):
    """human readable differences between two observations"""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append("%s/%s only in second: %.200r" % (path, k, b[k]))
            elif k not in b:
                out.append("%s/%s only in first: %.200r" % (path, k, a[k]))
            else:
                diff(a[k], b[k], "%s/%s" % (path, k), out, limit)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, "%s[%d]" % (path, i), out, limit)
    elif a != b:
        out.append("%s: %.300r != %.300r" % (path, a, b))
    return out[:limit]


def dump_kv(xom):
    """every key/value of the database at its current serial, plus file states"""
    from devpi_server.readonly import get_mutable_deepcopy
    keyfs = xom.keyfs
    out = {}
    with keyfs.get_connection() as conn:
        last = conn.last_changelog_serial
        for serial in range(last + 1):
            for relpath, (keyname, back, val) in conn.get_changes(serial).items():
                if val is None:
                    out.pop(relpath, None)
                else:
                    out[relpath] = (keyname, get_mutable_deepcopy(val))
    return last, out


def disk_files(path):
    """relpath -> sha256 of the files below +files"""
    import os
    out = {}
    for root, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = hashlib.sha256(fh.read()).hexdigest()
    return out
