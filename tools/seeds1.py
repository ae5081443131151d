K = "server/devpi_server/keyfs.py"
M = "server/devpi_server/model.py"
VW = "server/devpi_server/views.py"
MI = "server/devpi_server/mirror.py"
SEEDS = [
dict(id="c01-delete-of-empty-value", property="C01",
  needs="deleting a key whose committed value is empty ({} or an empty set), in a later transaction",
  breaks="the deletion is taken for 'no net change' and dropped: the key still exists afterwards and no serial is used",
  edits=[(K, "            if val == old_val:\n                continue\n            if val is deleted:",
             "            if val == old_val or (val is deleted and not old_val):\n                # no net change\n                continue\n            if val is deleted:")],
  demo='''
import srv
s = srv.Server(app=False)
keyfs = s.keyfs
with keyfs.write_transaction():
    keyfs.PROJVERSION(user="u", index="i", project="p", version="1").set({})
n = keyfs.get_current_serial()
with keyfs.write_transaction():
    keyfs.PROJVERSION(user="u", index="i", project="p", version="1").delete()
assert keyfs.get_current_serial() == n + 1, "deletion was not committed"
with keyfs.read_transaction():
    assert not keyfs.PROJVERSION(user="u", index="i", project="p", version="1").exists(), "still exists"
s.close()
'''),
dict(id="c04-docs-lost-with-last-file", property="C04",
  needs="a version with a release file and documentation, then deleting only the release file",
  breaks="the version with its documentation disappears together with its last release file",
  edits=[(M, "            if not linkstore.get_links():\n                self.del_versiondata(project, version)\n            self._regen_simplelinks(project)\n\n    def list_versions",
             "            if not linkstore.get_links(rel=\"releasefile\"):\n                self.del_versiondata(project, version)\n            self._regen_simplelinks(project)\n\n    def list_versions")],
  demo='''
import io, zipfile
import srv
s = srv.Server()
s.create_user("u1")
s.create_index("u1/a")
f = io.BytesIO()
with zipfile.ZipFile(f, "w") as z:
    z.writestr("index.html", "hello")
assert s.upload("u1/a", "pkg", "1.0", "pkg-1.0.tar.gz", b"content", user="u1").status_code == 200
assert s.upload("u1/a", "pkg", "1.0", "pkg.zip", f.getvalue(), user="u1", action="doc_upload").status_code == 200
links = s.get("/u1/a/pkg/1.0").json["result"]["+links"]
rel = [x for x in links if x["rel"] == "releasefile"][0]["href"]
assert s.delete(rel.replace("http://localhost", ""), user="u1").status_code == 200
r = s.get("/u1/a/pkg/1.0")
assert r.status_code == 200, r
assert [x["rel"] for x in r.json["result"]["+links"]] == ["doczip"], r.json
s.close()
'''),
dict(id="c05-user-delete-mixed", property="C05",
  needs="a user with a volatile and a non-volatile index is deleted",
  breaks="deleting the user is only refused when all of its indexes are non-volatile, so files of a non-volatile index vanish",
  edits=[(VW, '''        for name, ixconfig in userconfig.get("indexes", {}).items():
            if not ixconfig["volatile"]:
                apireturn(403, "user %r has non-volatile index: %s" % (
                    context.username, name))
''', '''        indexes = userconfig.get("indexes", {})
        if indexes and not any(x["volatile"] for x in indexes.values()):
            apireturn(403, "user %r has non-volatile index: %s" % (
                context.username, ", ".join(indexes)))
''')],
  demo='''
import srv
s = srv.Server()
s.login("root", "")
s.create_user("u1")
s.create_index("u1/a", volatile=False)
s.create_index("u1/b", volatile=True)
assert s.upload("u1/a", "pkg", "1.0", "pkg-1.0.tar.gz", b"content", user="u1").status_code == 200
r = s.delete("/u1", user="root")
assert r.status_code == 403, r
assert b"pkg-1.0.tar.gz" in s.get("/u1/a/+simple/pkg/").body
s.close()
'''),
dict(id="c07-empty-first-whitelist", property="C07",
  needs="intersection inheritance, an empty whitelist on the queried index, and a base with the project in its whitelist",
  breaks="an empty whitelist is treated as not set, so releases of the mirror are mixed in",
  edits=[(M, '''                stage_whitelist = set(
                    stage.ixconfig.get("mirror_whitelist", set()))
                if whitelist is None:
''', '''                stage_whitelist = set(
                    stage.ixconfig.get("mirror_whitelist", set()))
                if not whitelist:
''')],
  libs=("srv", "ups"),
  demo='''
import srv, ups
up = ups.Pypi()
up.projects["pkg"] = [ups.File("pkg-9.9.tar.gz", b"evil")]
s = srv.Server()
s.create_user("u1")
assert s.create_index("u1/m", type="mirror", mirror_url=up.url + "/simple/").status_code == 200
assert s.create_index("u1/b", bases=["u1/m"], mirror_whitelist=["pkg"]).status_code == 200
assert s.create_index("u1/a", bases=["u1/b"], mirror_whitelist_inheritance="intersection").status_code == 200
assert s.upload("u1/a", "pkg", "1.0", "pkg-1.0.tar.gz", b"content", user="u1").status_code == 200
r = s.get("/u1/a/+simple/pkg/", accept="text/html")
assert b"pkg-1.0.tar.gz" in r.body, r
assert b"pkg-9.9" not in r.body, r
s.close()
up.close()
'''),
dict(id="c12-yank-only-change", property="C12",
  needs="upstream yanks a file (or changes requires-python) without adding or removing one, and the mirror is refreshed",
  breaks="the refreshed page is not stored, the old yank marker is shown",
  edits=[(MI, '''        old = key.get()
        if old != data:
            threadlog.debug("saving''', '''        old = key.get()
        # the serial alone isn't worth a new transaction
        if old.get("links") != data["links"]:
            threadlog.debug("saving''')],
  libs=("srv", "ups", "clock"),
  demo='''
import srv, ups, clock
clock.install()
up = ups.Pypi()
up.projects["pkg"] = [ups.File("pkg-9.9.tar.gz", b"one")]
s = srv.Server()
s.create_user("u1")
assert s.create_index("u1/m", type="mirror", mirror_url=up.url + "/simple/").status_code == 200
r = s.get("/u1/m/+simple/pkg/", accept="text/html")
assert b"data-yanked" not in r.body and b"pkg-9.9" in r.body, r
up.projects["pkg"] = [ups.File("pkg-9.9.tar.gz", b"one", yanked="broken")]
clock.advance(100000)
r = s.get("/u1/m/+simple/pkg/", accept="text/html")
r = s.get("/u1/m/+simple/pkg/", accept="text/html")
assert b"data-yanked" in r.body, r
s.close()
up.close()
'''),
dict(id="c13-no-length-no-check", property="C13",
  needs="a cached file of a mirror was removed with its version, and upstream then sends other content without content-length (chunked)",
  breaks="the wrong content is accepted and stored in the mirror",
  edits=[(VW, '''        if content_size and int(content_size) != filesize:
            raise ValueError(
                "%s: got %s bytes of %r from remote, expected %s" % (
                    self.relpath, filesize, self.response.url, content_size))
        if self._hashes:
''', '''        if not content_size:
            return
        if int(content_size) != filesize:
            raise ValueError(
                "%s: got %s bytes of %r from remote, expected %s" % (
                    self.relpath, filesize, self.response.url, content_size))
        if self._hashes:
''')],
  libs=("srv", "ups"),
  demo='''
import srv, ups
up = ups.Pypi()
up.projects["pkg"] = [ups.File("pkg-9.9.tar.gz", b"one" * 100)]
bad = [False]
def fault(f):
    if bad[0]:
        return ups.Reply(200, b"two" * 50, "application/octet-stream", length="chunked")
    return ups.Reply(200, f.content, "application/octet-stream")
up.file_fault["pkg-9.9.tar.gz"] = fault
s = srv.Server()
s.create_user("u1")
assert s.create_index("u1/m", type="mirror", mirror_url=up.url + "/simple/", volatile=True).status_code == 200
import re
r = s.get("/u1/m/+simple/pkg/", accept="text/html")
href = '/u1/m/' + re.search(rb'([+]f/[^"#]*pkg-9.9.tar.gz)', r.body).group(1).decode()
r = s.get(href, accept=None)
assert r.status_code == 200 and r.body == b"one" * 100, r
# remove the cached file, it can be fetched again
r = s.delete("/u1/m/pkg/9.9", user="u1")
assert r.status_code == 200, r
bad[0] = True
s.get(href, accept=None)
bad[0] = False
r = s.get(href, accept=None)
assert r.status_code == 200 and r.body == b"one" * 100, r
s.close()
up.close()
'''),
dict(id="c14-toxresult-of-other-file", property="C14",
  needs="pushing a release with several files that have test results",
  breaks="every file on the target gets the test results of all files with a longer or equal path prefix",
  edits=[(VW, '''                if toxlink.for_entrypath == entry.relpath]''', '''                if posixpath.basename(toxlink.for_entrypath).startswith(
                    posixpath.splitext(entry.basename)[0])]'''),
         (VW, "import os\n", "import os\nimport posixpath\n")],
  demo='''
import json
import srv
s = srv.Server()
s.create_user("u1")
s.create_index("u1/a")
s.create_index("u1/b")
for n in ("pkg-1.0.tar.gz", "pkg-1.0.tar.bz2"):
    assert s.upload("u1/a", "pkg", "1.0", n, n.encode(), user="u1").status_code == 200
def links(ix):
    return s.get("/u1/%s/pkg/1.0" % ix).json["result"]["+links"]
for l in links("a"):
    p = l["href"].replace("http://localhost", "")
    r = s.request("POST", p, json.dumps(dict(testenvs={}, host=l["basename"] if "basename" in l else p)).encode(), {"Accept": "application/json"}, user="u1")
    assert r.status_code == 200, r
r = s.send_json("POST", "/u1/a/", dict(name="pkg", version="1.0", targetindex="u1/b"), user="u1")
assert r.status_code == 200, r
assert len(links("a")) == 4, links("a")
assert len(links("b")) == 4, links("b")
s.close()
'''),
dict(id="c09-token-after-recreate", property="C09",
  needs="a login token of a user is used after that user was deleted",
  breaks="tokens of deleted users are still accepted as that user when they carry groups or when the user table is empty for it",
  edits=[("server/devpi_server/auth.py", '''            if val[2] and self.model.get_user(authuser) is None:''', '''            if val[1] and val[2] and self.model.get_user(authuser) is None:''')],
  demo='''
import srv
s = srv.Server()
s.login("root", "")
s.create_user("u1")
s.create_index("u1/a")
s.create_user("u2")
s.create_index("u2/b", acl_upload=[":AUTHENTICATED:"])
assert s.delete("/u1", user="root").status_code == 200
r = s.upload("u2/b", "pkg", "1.0", "pkg-1.0.tar.gz", b"content", user="u1")
assert r.status_code in (401, 403), r
s.close()
'''),
]
