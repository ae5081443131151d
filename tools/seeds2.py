K = "server/devpi_server/keyfs.py"
M = "server/devpi_server/model.py"
VW = "server/devpi_server/views.py"
MI = "server/devpi_server/mirror.py"
RE = "server/devpi_server/replica.py"
IE = "server/devpi_server/importexport.py"
FS = "server/devpi_server/filestore.py"
AU = "server/devpi_server/auth.py"
FU = "server/devpi_server/fileutil.py"
META = "common/devpi_common/metadata.py"
URLP = "common/devpi_common/url.py"
ARCH = "common/devpi_common/archive.py"
SEEDS = [
dict(id="c03-int-lower-bound", property="C03",
  needs="serialising exactly the integer -2147483649",
  breaks="the value just below the four byte range is packed as a four byte integer, so it cannot be stored",
  edits=[(FU, "    if not -FOUR_BYTE_INT_MAX - 1 <= obj <= FOUR_BYTE_INT_MAX:", "    if not -FOUR_BYTE_INT_MAX - 2 <= obj <= FOUR_BYTE_INT_MAX:")],
  libs=(),
  demo='''
from devpi_server.fileutil import dumps, loads
for i in (-2**31 - 2, -2**31 - 1, -2**31, 2**31 - 1, 2**31):
    assert loads(dumps(i)) == i, i
'''),
dict(id="c08-acl-both-specials", property="C08",
  needs="an ACL that lists both :AUTHENTICATED: and :ANONYMOUS:",
  breaks="an anonymous user is refused although :ANONYMOUS: is listed",
  edits=[(M, "        principals.add(Authenticated)\n    if ':ANONYMOUS:' in principals:", "        principals.add(Authenticated)\n    elif ':ANONYMOUS:' in principals:")],
  demo='''
import srv
s = srv.Server()
s.create_user("u1")
s.create_index("u1/a", acl_upload=[":AUTHENTICATED:", ":ANONYMOUS:"])
r = s.upload("u1/a", "pkg", "1.0", "pkg-1.0.tar.gz", b"content")
assert r.status_code == 200, r
s.close()
'''),
dict(id="c09-token-case", property="C09",
  needs="two users whose names differ only in case, and the login token of one sent with the name of the other",
  breaks="the token of one user is accepted for the other",
  edits=[(AU, "            if val[0] != authuser:", "            if val[0].lower() != authuser.lower():")],
  demo='''
import srv
s = srv.Server()
s.create_user("bob", "pw1")
s.create_user("Bob", "pw2")
token = s.send_json("POST", "/+login", dict(user="bob", password="pw1")).json["result"]["password"]
import base64
h = {"X-Devpi-Auth": base64.b64encode(("Bob:" + token).encode()).decode()}
r = s.send_json("PUT", "/Bob/x", dict(), headers=h)
assert r.status_code in (401, 403), r
s.close()
'''),
dict(id="c10-upload-after-delete", property="C10",
  needs="a file that is deleted and uploaded again on the primary while the replica has both changes queued",
  breaks="the replica never fetches a file whose path was deleted once before",
  edits=[(RE, """                if serial <= deleted_serial:
                    return
                else:
                    self.shared_data.deleted.invalidate(key)
""", """                if serial <= deleted_serial or back_serial > -1:
                    return
                else:
                    self.shared_data.deleted.invalidate(key)
""")],
  demo='''
'''),
dict(id="c10-gap", property="C10",
  needs="a primary that answers with a later serial than the one that was asked for",
  breaks="the replica applies a change set although the ones before it are missing, and never gets them",
  edits=[(K, "                assert next_serial == serial, (next_serial, serial)", "                assert next_serial <= serial, (next_serial, serial)")],
  demo='''
import srv
s = srv.Server(app=False)
keyfs = s.keyfs
n = keyfs.get_next_serial()
key = keyfs.USER(user="gap")
try:
    keyfs.import_changes(n + 3, {key.relpath: (key.name, -1, {"x": 1})})
except Exception:
    pass
assert keyfs.get_next_serial() == n, (n, keyfs.get_next_serial())
s.close()
'''),
dict(id="c11-toxresult-of-second-file", property="C11",
  needs="a version with two releases files that both have the same content (like a .tar.gz and a .zip placeholder) and test results for both, exported",
  breaks="the exported test result is assigned to the wrong file",
  edits=[(IE, "reflink = linkstore.stage.get_link_from_entrypath(tox_link.for_entrypath)", "reflink = [\n                x for x in linkstore.get_links(rel=\"releasefile\")\n                if tox_link.basename.startswith(x.basename.split('.tar')[0])][0]")],
  demo='''
'''),
dict(id="c12-better-hash-wins", property="C12",
  needs="an upstream page with two links for the same file name, both with a hash and the second with requires-python",
  breaks="the later link replaces the first one",
  edits=[(MI, """        if entry is None or (not entry.hash_spec and (newlink.hash_spec or (
            not entry.requires_python and newlink.requires_python
        ))):
""", """        if entry is None or (not entry.hash_spec and newlink.hash_spec) or (
            not entry.requires_python and newlink.requires_python
        ):
""")],
  libs=("srv", "ups", "clock"),
  demo='''
import srv, ups
up = ups.Pypi()
a = ups.File("pkg-1.0.tar.gz", b"one")
b = ups.File("pkg-1.0.tar.gz", b"two", requires_python=">=3")
up.projects["pkg"] = [a, b]
s = srv.Server()
s.create_user("u1")
assert s.create_index("u1/m", type="mirror", mirror_url=up.url + "/simple/").status_code == 200
r = s.get("/u1/m/+simple/pkg/", accept="text/html")
assert a.hash_spec in r.text and b.hash_spec not in r.text, r.text
s.close()
up.close()
'''),
dict(id="c13-only-best-hash", property="C13",
  needs="a mirror file that is known with several hashes of which one other than the preferred one does not match the fetched content",
  breaks="the download is only compared with one of the known hashes",
  edits=[(FS, "        errors = self.errors_for(content_or_hashes)\n        if errors:", "        errors = self.errors_for(content_or_hashes)\n        if errors and self.best_available_type in errors:")],
  demo='''
from devpi_server.filestore import Digests
import hashlib
d = Digests({"md5": hashlib.md5(b"one").hexdigest(), "sha256": hashlib.sha256(b"two").hexdigest()})
assert d.exception_for(Digests({"md5": hashlib.md5(b"one").hexdigest(), "sha256": hashlib.sha256(b"one").hexdigest()}), "x") is not None
d = Digests({"md5": hashlib.md5(b"two").hexdigest(), "sha256": hashlib.sha256(b"one").hexdigest()})
assert d.exception_for(Digests({"md5": hashlib.md5(b"one").hexdigest(), "sha256": hashlib.sha256(b"one").hexdigest()}), "x") is not None
'''),
dict(id="c16-wheel-build-tag", property="C16",
  needs="a wheel with a build tag that is longer than digits, like 1_abc or 1b",
  breaks="the build tag is taken for the python tag, so the name of the file is split wrongly",
  edits=[(META, r"((-(?P<build>\d.*?))?-(?P<pyver>.+?)-(?P<abi>.+?)-(?P<plat>.+?)", r"((-(?P<build>\d+))?-(?P<pyver>.+?)-(?P<abi>.+?)-(?P<plat>.+?)")],
  libs=(),
  demo='''
from devpi_common.metadata import splitbasename
assert splitbasename("pkg-1.0-1b2-py3-none-any.whl") == ("pkg", "1.0", "-py3-none-any.whl"), splitbasename("pkg-1.0-1b2-py3-none-any.whl")
assert splitbasename("pkg-1.0-1-py3-none-any.whl") == ("pkg", "1.0", "-py3-none-any.whl")
assert splitbasename("pkg-1.0-py3-none-any.whl") == ("pkg", "1.0", "-py3-none-any.whl")
'''),
dict(id="c16-local-version-dash", property="C16",
  needs="a source archive with a local version with several segments, like pkg-1.0+ab.cd-1.tar.gz",
  breaks="the file is assigned to the wrong project and version",
  edits=[(META, r"""    r"(?:\+(?:[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?"  # local version""" + "\n" + r"""    r")$")""" + "\n\n" + "_legacy_nameversion_re",
          r"""    r"(?:\+(?:[a-z0-9]+(?:[_\.][a-z0-9]+)*))?"  # local version""" + "\n" + r"""    r")$")""" + "\n\n" + "_legacy_nameversion_re")],
  libs=(),
  demo='''
from devpi_common.metadata import splitbasename
assert splitbasename("pkg-1.0+ab-2.tar.gz") == ("pkg", "1.0+ab-2", ".tar.gz"), splitbasename("pkg-1.0+ab-2.tar.gz")
assert splitbasename("pkg-1.0+ab.2.tar.gz") == ("pkg", "1.0+ab.2", ".tar.gz")
'''),
dict(id="c17-netloc-colon", property="C17",
  needs="replacing the password of a URL with a user name and a port",
  breaks="the port is lost",
  edits=[(URLP, "            elif self.port:\n                netloc += \":%s\" % self.port", "            elif self.port and \"password\" not in kwargs:\n                netloc += \":%s\" % self.port")],
  libs=(),
  demo='''
from devpi_common.url import URL
assert URL("http://u:p@localhost:3141/x").replace(password="y").url == "http://u:y@localhost:3141/x"
'''),
dict(id="c18-tar-out-of-bound", property="C18",
  needs="a tar archive with a member whose name has '..' segments",
  breaks="without the data filter of the tarfile module a member is written outside of the target folder",
  edits=[(ARCH, "        if hasattr(tarfile, 'data_filter'):\n            self._archive.extractall(str(to_path), members=members, filter='data')", "        if hasattr(tarfile, 'data_filter'):\n            self._archive.extractall(str(to_path), members=members, filter='tar')")],
  libs=(),
  demo='''
import io, os, tarfile, tempfile, shutil
from devpi_common.archive import Archive
d = tempfile.mkdtemp()
try:
    f = io.BytesIO()
    t = tarfile.open(fileobj=f, mode="w")
    i = tarfile.TarInfo("a")
    i.type = tarfile.SYMTYPE
    i.linkname = "../outside"
    t.addfile(i)
    i = tarfile.TarInfo("ok")
    i.size = 2
    t.addfile(i, io.BytesIO(b"hi"))
    t.close()
    f.seek(0)
    os.mkdir(os.path.join(d, "t"))
    try:
        with Archive(f) as a:
            a.extract(os.path.join(d, "t"))
    except Exception:
        pass
    assert not os.path.islink(os.path.join(d, "t", "a")), "link to the outside was created"
finally:
    shutil.rmtree(d)
'''),
dict(id="c14-push-loses-time", property="C14",
  needs="pushing a file that was uploaded earlier than the second of the push",
  breaks="the time of the upload is lost, the pushed file gets the time of the push",
  edits=[(VW, "                    hashes=entry.hashes,\n                    last_modified=entry.last_modified)\n            new_link.add_logs(", "                    hashes=entry.hashes)\n            new_link.add_logs(")],
  libs=("srv", "ups", "clock"),
  demo='''
'''),
dict(id="c04-reflink-order", property="C04",
  needs="two files with test results, the first one deleted",
  breaks="deleting one file also removes the test results of the other file",
  edits=[(M, "                self.remove_links(for_entrypath=entrypath)\n", "                self.remove_links(rel=\"toxresult\")\n")],
  demo='''
import srv, json
s = srv.Server()
s.create_user("u1")
s.create_index("u1/a")
for ext in ("tar.gz", "zip"):
    assert s.upload("u1/a", "pkg", "1.0", "pkg-1.0." + ext, ext.encode(), user="u1").status_code == 200
links = {x["href"].rsplit("/", 1)[1]: x["href"].replace("http://localhost", "") for x in s.get("/u1/a/pkg/1.0").json["result"]["+links"]}
for p in links.values():
    assert s.request("POST", p, json.dumps({"testenvs": {}}).encode(), user="u1").status_code == 200
assert s.delete(links["pkg-1.0.zip"], user="u1").status_code == 200
left = [x["rel"] for x in s.get("/u1/a/pkg/1.0").json["result"]["+links"]]
assert sorted(left) == ["releasefile", "toxresult"], left
s.close()
'''),
dict(id="c05-overwrite-docs", property="C05",
  needs="uploading documentation a second time to a non-volatile index",
  breaks="documentation of a non-volatile index is replaced",
  edits=[(M, "            if not self.stage.ixconfig.get(\"volatile\"):\n                exc = NonVolatile", "            if rel == \"releasefile\" and not self.stage.ixconfig.get(\"volatile\"):\n                exc = NonVolatile")],
  demo='''
import io, zipfile
import srv
def doc(text):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        z.writestr("index.html", text)
    return f.getvalue()
s = srv.Server()
s.create_user("u1")
s.create_index("u1/a", volatile=False)
assert s.upload("u1/a", "pkg", "1.0", "pkg-1.0.tar.gz", b"content", user="u1").status_code == 200
assert s.upload("u1/a", "pkg", "1.0", "pkg.zip", doc("one"), user="u1", action="doc_upload").status_code == 200
r = s.upload("u1/a", "pkg", "1.0", "pkg.zip", doc("two"), user="u1", action="doc_upload")
assert r.status_code == 409, r
s.close()
'''),
]
SEEDS = [x for x in SEEDS if x["demo"].strip()]
