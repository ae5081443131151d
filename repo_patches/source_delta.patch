From 30a1acdb63969709e89e9b842e52291a35d2727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 01/81] fix: update simple links when requires_python of a
 version changes

Registering metadata with a different requires_python left the old value
in the cached simple links until the next upload.
---
 server/devpi_server/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 6605057..feaf670 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1274,7 +1274,13 @@ class PrivateStage(BaseStage):
         if self.customizer.readonly:
             raise ReadonlyIndex("index is marked read only")
         validate_metadata(metadata)
+        project = metadata["name"]
+        old = self.get_versiondata_perstage(project, metadata["version"])
+        old_requires_python = old.get("requires_python")
         self._set_versiondata(metadata)
+        if old and metadata.get("requires_python", old_requires_python) != old_requires_python:
+            # the simple links contain a copy of this setting
+            self._regen_simplelinks(project)
 
     def key_projversions(self, project):
         return self.keyfs.PROJVERSIONS(user=self.username,
-- 
2.43.0


From 6fabf54ac83894d279f888f97b91393338012936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 02/81] fix: do not commit partial changes of rejected requests

A push or upload that is answered with an error after it already updated
metadata (e.g. 409 on a non-volatile index) left those changes behind.
---
 server/devpi_server/views.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 32d85ce..a88473a 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -252,6 +252,9 @@ def tween_keyfs_transaction(handler, registry):
                 threadlog.error(
                     "Keyfs timeout: %s", msg)
                 return HTTPInternalServerError(msg)
+            if write and response.status_code >= 400:
+                # a rejected request must not leave partial changes
+                tx.doom()
         set_header_devpi_serial(response, tx)
         return response
     return request_tx_handler
-- 
2.43.0


From ee7cdaaf541b6995ec83913dd5b6ef1a32c14017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 03/81] fix: never reuse the file name of an existing test
 result

After deleting a test result a new one uploaded within the same second
got the name of an existing one and replaced its content.
---
 server/devpi_server/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index feaf670..9228793 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1,5 +1,6 @@
 import functools
 import getpass
+import itertools
 import posixpath
 import re
 import json
@@ -1697,9 +1698,13 @@ class LinkStore:
         base_entry = links[0].entry
         if filename is None:
             other_reflinks = self.get_links(rel=rel, for_entrypath=for_entrypath)
+            other_filenames = {x.basename for x in other_reflinks}
             timestamp = strftime("%Y%m%d%H%M%S", gmtime())
-            filename = "%s.%s-%s-%d" % (
-                base_entry.basename, rel, timestamp, len(other_reflinks))
+            for index in itertools.count(len(other_reflinks)):
+                filename = "%s.%s-%s-%d" % (
+                    base_entry.basename, rel, timestamp, index)
+                if filename not in other_filenames:
+                    break
         entry = self._create_file_entry(
             filename, content_or_file,
             hashes=hashes,
-- 
2.43.0


From 6538f4af1b2c980f0ea6d6b213dcf662f604da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:58 +0000
Subject: [PATCH 04/81] fix: non-volatile index accepted a file again for
 another version

The version is only checked to be part of the filename, so uploading
pkg-1.0.tar.gz a second time with version 1 or pushing it replaced the
content offered for that filename.
---
 server/devpi_server/model.py | 19 +++++++++++++++++++
 server/devpi_server/views.py |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 9228793..b1337e3 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1392,6 +1392,25 @@ class PrivateStage(BaseStage):
     def has_project_perstage(self, project):
         return normalize_name(project) in self.list_projects_perstage()
 
+    def check_nonvolatile_filename(self, project, version, filename):
+        """ Raises NonVolatile if the release file already exists for another
+            version of the project, as upload only checks that the version is
+            part of the filename. """
+        if self.ixconfig.get("volatile"):
+            return
+        project = normalize_name(project)
+        if not any(x.key == filename for x in self.get_simplelinks_perstage(project)):
+            return
+        for other_version in self.list_versions_perstage(project):
+            if other_version == version:
+                continue
+            linkstore = self.get_linkstore_perstage(project, other_version)
+            for link in linkstore.get_links(rel="releasefile", basename=filename):
+                exc = NonVolatile("rel=%s basename=%s on stage %s" % (
+                    link.rel, filename, self.name))
+                exc.link = link
+                raise exc
+
     def store_releasefile(self, project, version, filename, content_or_file,
                           *, hashes=None, last_modified=None):
         if self.customizer.readonly:
diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index a88473a..0766529 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1160,6 +1160,8 @@ class PyPIView:
                 # re-get entry for current metadata which might have
                 # added hashes if a file had to be streamed from a remote
                 entry = self.xom.filestore.get_file_entry(entry.relpath)
+            target_stage.check_nonvolatile_filename(
+                name, version, entry.basename)
             with entry.file_open_read() as f:
                 new_link = target_stage.store_releasefile(
                     name, version, entry.basename, f,
@@ -1255,6 +1257,8 @@ class PyPIView:
             abort_if_invalid_filename(request, name, content_filename)
             self._update_versiondata_form(stage, request.POST)
             try:
+                stage.check_nonvolatile_filename(
+                    project, version, content_filename)
                 link = stage.store_releasefile(
                     project, version,
                     content_filename, content_file, hashes=hashes)
-- 
2.43.0


From 32b2510084d8c0adf27ed283f72d44c4748c2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:07 +0000
Subject: [PATCH 05/81] fix: roll back the journal of a killed process when
 opening the database

The storage is first opened in read only mode, which fails with
'attempt to write a readonly database' after a process was killed
while SQLite committed a transaction.
---
 server/devpi_server/keyfs_sqlite.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 5a0a500..7c511cc 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -482,7 +482,15 @@ class BaseStorage(object):
         return result
 
     def ensure_tables_exist(self):
-        schema = self._reflect_schema()
+        try:
+            schema = self._reflect_schema()
+        except sqlite3.OperationalError:
+            # If a process is killed while SQLite commits, it leaves a hot
+            # journal behind, which can't be rolled back by a connection
+            # in read only mode.
+            with self.get_connection(write=True):
+                pass
+            schema = self._reflect_schema()
         missing = dict()
         for kind, objs in self.expected_schema.items():
             for name, q in objs.items():
-- 
2.43.0


From 6e22331ee2d0473a4aa38bc173a0563ff9a79f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 06/81] fix: remove files only after the transaction is
 committed

With the removal done first, a process killed before the commit left
entries without their file behind, and depending on the last serial the
server refused to start.
---
 server/devpi_server/keyfs_sqlite.py    |  8 ++++--
 server/devpi_server/keyfs_sqlite_fs.py | 35 ++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/server/devpi_server/keyfs_sqlite.py b/server/devpi_server/keyfs_sqlite.py
index 7c511cc..43d2d2c 100644
--- a/server/devpi_server/keyfs_sqlite.py
+++ b/server/devpi_server/keyfs_sqlite.py
@@ -347,6 +347,11 @@ class Connection(BaseConnection):
         self.dirty_files.clear()
         return (files_commit, files_del)
 
+    def _commit_with_files(self, rel_renames):
+        result = self._write_dirty_files(rel_renames)
+        self.commit()
+        return result
+
     def _drop_dirty_files(self):
         return
 
@@ -660,8 +665,7 @@ class Writer:
         rel_renames = self.conn._get_rel_renames()
         entry = (self.changes, rel_renames)
         self.conn.write_changelog_entry(commit_serial, entry)
-        (files_commit, files_del) = self.conn._write_dirty_files(rel_renames)
-        self.conn.commit()
+        (files_commit, files_del) = self.conn._commit_with_files(rel_renames)
         self.storage.last_commit_timestamp = time.time()
         return LazyChangesFormatter(self.changes, files_commit, files_del)
 
diff --git a/server/devpi_server/keyfs_sqlite_fs.py b/server/devpi_server/keyfs_sqlite_fs.py
index e571271..69cee09 100644
--- a/server/devpi_server/keyfs_sqlite_fs.py
+++ b/server/devpi_server/keyfs_sqlite_fs.py
@@ -8,6 +8,7 @@ from .filestore_fs import LazyChangesFormatter
 from .filestore_fs import check_pending_renames
 from .filestore_fs import commit_renames
 from .filestore_fs import make_rel_renames
+from .filestore_fs import tmpsuffix_for_path
 from .fileutil import get_write_file_ensure_dir, loads
 from hashlib import sha256
 from zope.interface import alsoProvides
@@ -148,14 +149,34 @@ class Connection(BaseConnection):
 
     def _write_dirty_files(self, rel_renames):
         basedir = str(self.storage.basedir)
-        # If we crash in the remainder, the next restart will
-        # - call check_pending_renames which will replay any remaining
-        #   renames from the changelog entry, and
-        # - initialize next_serial from the max committed serial + 1
-        result = commit_renames(basedir, rel_renames)
+        with self.storage._files_lock:
+            result = commit_renames(basedir, rel_renames)
         self.dirty_files.clear()
         return result
 
+    def _commit_with_files(self, rel_renames):
+        basedir = str(self.storage.basedir)
+        pending_commit = []
+        pending_del = []
+        for relpath in rel_renames:
+            if tmpsuffix_for_path(relpath) is None:
+                pending_del.append(relpath)
+            else:
+                pending_commit.append(relpath)
+        # Files may only be removed once the transaction, which no longer
+        # references them, is committed. The lock prevents the next
+        # transaction from adding one of them again before it is removed.
+        with self.storage._files_lock:
+            (files_commit, _) = commit_renames(basedir, pending_commit)
+            self.dirty_files.clear()
+            self.commit()
+            # If we crash in the remainder, the next restart will
+            # - call check_pending_renames which will replay any remaining
+            #   removals from the changelog entry, and
+            # - initialize next_serial from the max committed serial + 1
+            (_, files_del) = commit_renames(basedir, pending_del)
+        return (files_commit, files_del)
+
     def _drop_dirty_files(self):
         drop_dirty_files(self.dirty_files)
         self.dirty_files.clear()
@@ -192,6 +213,10 @@ class Storage(BaseStorage):
                 )
             """))
 
+    def __init__(self, *args, **kw):
+        self._files_lock = threading.Lock()
+        super().__init__(*args, **kw)
+
     def perform_crash_recovery(self):
         # get last changes and verify all renames took place
         with self.get_connection() as conn:
-- 
2.43.0


From ca3a5e3414e507eb22225a28de9c60f4a9cab615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 07/81] fix: keep parameters of the last path segment in
 URL.replace

---
 common/devpi_common/url.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/devpi_common/url.py b/common/devpi_common/url.py
index fa9da97..c035066 100644
--- a/common/devpi_common/url.py
+++ b/common/devpi_common/url.py
@@ -10,7 +10,7 @@ from urllib.parse import parse_qsl
 from urllib.parse import unquote
 from urllib.parse import urlencode
 from urllib.parse import urljoin
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 from urllib.parse import urlunsplit
 import posixpath
 
@@ -173,7 +173,9 @@ class URL:
 
     @cached_property
     def _parsed(self):
-        return urlparse(self.url)
+        # urlparse would split off parameters of the last path segment,
+        # which are then lost in ``replace``
+        return urlsplit(self.url)
 
     def is_valid_http_url(self):
         try:
-- 
2.43.0


From bc2818c44085a6501c70271f23f3d83aeee395fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 08/81] fix: URL.replace keeps IPv6 brackets and case of the
 host

---
 common/devpi_common/url.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/devpi_common/url.py b/common/devpi_common/url.py
index c035066..cfabf84 100644
--- a/common/devpi_common/url.py
+++ b/common/devpi_common/url.py
@@ -118,7 +118,13 @@ class URL:
                     raise ValueError("Can't use empty 'hostname'.")
                 netloc += kwargs["hostname"]
             elif self.hostname:
-                netloc += self.hostname
+                # the hostname attribute is lower cased and for
+                # IPv6 addresses has no brackets
+                hostport = self.netloc.rpartition("@")[2]
+                if hostport.startswith("["):
+                    netloc += hostport.partition("]")[0] + "]"
+                else:
+                    netloc += hostport.partition(":")[0]
             if "port" in kwargs:
                 if kwargs["port"]:
                     netloc += ":%s" % kwargs["port"]
-- 
2.43.0


From 3888a2cd66d5438f9eecad4a51717d1d1a2a6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 09/81] fix: return the value of a sha256 fragment without
 leftovers of its prefix

---
 common/devpi_common/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/devpi_common/url.py b/common/devpi_common/url.py
index cfabf84..4603530 100644
--- a/common/devpi_common/url.py
+++ b/common/devpi_common/url.py
@@ -226,7 +226,7 @@ class URL:
     def sha256(self):
         val = self.fragment
         if val.startswith("sha256="):
-            return ensure_unicode(val[4:])
+            return ensure_unicode(val[7:])
 
     def joinpath(self, *args, **kwargs):
         newurl = _joinpath(self.url, args, **kwargs)
-- 
2.43.0


From b3dbb4abb33faad54d75d189c1ec00d870ba6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 10/81] fix: URL.relpath for targets above and for empty
 results

---
 common/devpi_common/url.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/common/devpi_common/url.py b/common/devpi_common/url.py
index 4603530..a2511e5 100644
--- a/common/devpi_common/url.py
+++ b/common/devpi_common/url.py
@@ -241,15 +241,19 @@ class URL:
         parts2 = target.split("/")
         if not parts2 or parts2[0]:
             raise ValueError("not an absolute target: %s" % (target,))
-        for i, part in enumerate(parts1):
-            if parts2[i] == part:
-                continue
-            prefix = "../" * (len(parts1) - i - 1)
-            return prefix + "/".join(parts2[i:])
-        rest = parts2[len(parts1):]
-        if parts1[-1]:  # ends not in slash
-            rest.insert(0, parts1[-1])
-        return "/".join(rest)
+        # count the directories both paths have in common
+        common = 0
+        for part1, part2 in zip(parts1[:-1], parts2[:-1]):
+            if part1 != part2:
+                break
+            common += 1
+        prefix = "../" * (len(parts1) - common - 1)
+        result = prefix + "/".join(parts2[common:])
+        if (not result and parts1[-1]) or ":" in result.partition("/")[0]:
+            # an empty result would point to the resource itself and
+            # a colon in the first segment would mark a scheme
+            return "./" + result
+        return result
 
     def asdir(self):
         if self.path[-1:] == "/":
-- 
2.43.0


From f53ae700b3c7385abd1293401370b6c1b4677af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 11/81] fix: .tar.bz2 archives are source distributions

---
 common/devpi_common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/devpi_common/metadata.py b/common/devpi_common/metadata.py
index ad468ad..8dedd97 100644
--- a/common/devpi_common/metadata.py
+++ b/common/devpi_common/metadata.py
@@ -69,7 +69,7 @@ _legacy_nameversion_re = re.compile(
 
 def get_pyversion_filetype(basename):
     _, _, suffix = splitbasename(basename)
-    if suffix in (".zip", ".tar.gz", ".tgz", "tar.bz2"):
+    if suffix in (".zip", ".tar.gz", ".tgz", ".tar.bz2"):
         return ("source", "sdist")
     m = _pyversion_type_rex.search(suffix)
     if not m:
-- 
2.43.0


From 5db755fe74194bee1f5568a5580ef365be408bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 12/81] fix: parse source archives of projects with a python
 tag in the name

---
 common/devpi_common/metadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/devpi_common/metadata.py b/common/devpi_common/metadata.py
index 8dedd97..36f0255 100644
--- a/common/devpi_common/metadata.py
+++ b/common/devpi_common/metadata.py
@@ -18,6 +18,8 @@ ALLOWED_ARCHIVE_EXTS = set(
     ".dmg .deb .msi .rpm .exe .egg .whl .tar.gz "
     ".tar.bz2 .tar .tgz .zip .doc.zip".split())
 
+_SOURCE_ARCHIVE_EXTS = {".tar.gz", ".tar.bz2", ".tgz", ".zip", ".doc.zip"}
+
 
 _releasefile_suffix_rx = re.compile(
     r"(\.deb|\.dmg|\.msi|\.zip|\.tar\.gz|\.tgz|\.tar\.bz2|"
@@ -100,6 +102,11 @@ def splitbasename(path, checkarch=True):
     if checkarch and ext.lower() not in ALLOWED_ARCHIVE_EXTS:
         raise ValueError("invalid archive type %r in: %s" % (ext, path))
     m = _releasefile_suffix_rx.search(path)
+    if m and m.group(1).startswith("-") and ext.lower() in _SOURCE_ARCHIVE_EXTS:
+        # the project name might contain something looking like the python
+        # tag of a built archive, like in "suds-py3-1.0.tar.gz"
+        if _pep404_nameversion_re.match(nameversion):
+            m = None
     if m:
         ext = m.group(1)
     if len(ext):
-- 
2.43.0


From d416699ed4d7339dcb62e3f21f8d8b30d392f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 13/81] fix: python version of wheels for several or for py3X
 versions

---
 common/devpi_common/metadata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/devpi_common/metadata.py b/common/devpi_common/metadata.py
index 36f0255..74c8235 100644
--- a/common/devpi_common/metadata.py
+++ b/common/devpi_common/metadata.py
@@ -37,6 +37,7 @@ _releasefile_suffix_rx = re.compile(
 # see also PEP425 for supported "python tags"
 _pyversion_type_rex = re.compile(
     r"(py|cp|ip|pp|jy)([\d\.py]+).*\.(exe|egg|msi|whl)", re.IGNORECASE)
+_pyversion_number_rex = re.compile(r"\d+(?:\.\d+)*")
 _ext2type = dict(exe="bdist_wininst", egg="bdist_egg", msi="bdist_msi",
                  whl="bdist_wheel")
 
@@ -81,8 +82,13 @@ def get_pyversion_filetype(basename):
         # arbitrary but pypi/devpi makes no special use
         # of "pyversion" anyway?!
         pyversion = "2.7"
-    elif "." not in pyversion:
-        if tag in ("cp", "pp") and pyversion.startswith("3"):
+        return (pyversion, _ext2type[ext])
+    # only use the first tag of a compressed tag set
+    m = _pyversion_number_rex.match(pyversion)
+    if m:
+        pyversion = m.group()
+    if "." not in pyversion:
+        if tag in ("cp", "pp", "py") and len(pyversion) > 1 and pyversion.startswith("3"):
             pyversion = ".".join((pyversion[0], pyversion[1:]))
         else:
             pyversion = ".".join(pyversion)
-- 
2.43.0


From 1d170799bf9365b73e1ec51785d00a107b4c119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 14/81] fix: file type of archives with upper case extensions

---
 common/devpi_common/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/devpi_common/metadata.py b/common/devpi_common/metadata.py
index 74c8235..0a002ab 100644
--- a/common/devpi_common/metadata.py
+++ b/common/devpi_common/metadata.py
@@ -72,7 +72,7 @@ _legacy_nameversion_re = re.compile(
 
 def get_pyversion_filetype(basename):
     _, _, suffix = splitbasename(basename)
-    if suffix in (".zip", ".tar.gz", ".tgz", ".tar.bz2"):
+    if suffix.lower() in (".zip", ".tar.gz", ".tgz", ".tar.bz2"):
         return ("source", "sdist")
     m = _pyversion_type_rex.search(suffix)
     if not m:
@@ -82,7 +82,7 @@ def get_pyversion_filetype(basename):
         # arbitrary but pypi/devpi makes no special use
         # of "pyversion" anyway?!
         pyversion = "2.7"
-        return (pyversion, _ext2type[ext])
+        return (pyversion, _ext2type[ext.lower()])
     # only use the first tag of a compressed tag set
     m = _pyversion_number_rex.match(pyversion)
     if m:
@@ -92,7 +92,7 @@ def get_pyversion_filetype(basename):
             pyversion = ".".join((pyversion[0], pyversion[1:]))
         else:
             pyversion = ".".join(pyversion)
-    return (pyversion, _ext2type[ext])
+    return (pyversion, _ext2type[ext.lower()])
 
 
 def splitbasename(path, checkarch=True):
-- 
2.43.0


From 8c724f9054f6e6a15e7a4934aad1bfea5290529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:53 +0000
Subject: [PATCH 15/81] fix: refuse members of zip archives outside the target
 directory

---
 common/devpi_common/archive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/devpi_common/archive.py b/common/devpi_common/archive.py
index 6877b6e..f8bed23 100644
--- a/common/devpi_common/archive.py
+++ b/common/devpi_common/archive.py
@@ -123,11 +123,13 @@ class ZipArchive(BaseArchive):
 
     def extract(self, to_path='', safe=False):
         # XXX unify with TarFile.extract
-        basedir = Path(to_path)
+        basedir = Path(to_path).resolve()
         unzipfile = self._archive
         members = unzipfile.namelist()
         for name in members:
-            fpath = basedir.joinpath(name)
+            # ``relative_to`` below is purely lexical, so any ".." and
+            # symlinks have to be resolved
+            fpath = basedir.joinpath(name).resolve()
             try:
                 fpath.relative_to(basedir)
             except ValueError as e:
-- 
2.43.0


From 10a16dc1141941327f2c6468ea7a816dce905fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:03 +0000
Subject: [PATCH 16/81] fix: comparing an empty version raised
 NotImplementedError

---
 common/devpi_common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/devpi_common/metadata.py b/common/devpi_common/metadata.py
index 0a002ab..0f44d81 100644
--- a/common/devpi_common/metadata.py
+++ b/common/devpi_common/metadata.py
@@ -192,7 +192,7 @@ class Version(str):
     def cmpval(self):
         _cmpval = getattr(self, '_cmpval', None)
         if _cmpval is None:
-            self._cmpval = _cmpval = parse_version(self)
+            self._cmpval = _cmpval = parse_version(str(self))
         return _cmpval
 
     def is_prerelease(self):
-- 
2.43.0


From 4626122f7572917e6d3727909f71119f099da96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 17/81] fix: keep the query when redirecting to the normalized
 project name

---
 server/devpi_server/view_auth.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/view_auth.py b/server/devpi_server/view_auth.py
index ef4f270..508d732 100644
--- a/server/devpi_server/view_auth.py
+++ b/server/devpi_server/view_auth.py
@@ -153,7 +153,10 @@ class RootFactory(object):
             new_matchdict = dict(self.request.matchdict)
             new_matchdict['project'] = n_project
             route_name = self.request.matched_route.name
-            url = self.request.route_url(route_name, **new_matchdict)
+            url = self.request.route_url(
+                route_name,
+                _query=list(self.request.GET.items()),
+                **new_matchdict)
             raise HTTPFound(location=url)
         return n_project
 
-- 
2.43.0


From f189fbfcd911a14671cf4f75406bd90275a080f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:52 +0000
Subject: [PATCH 18/81] fix: call success listeners if a write transaction had
 no net changes

Refreshing an unchanged mirrored project left it marked as expired.
---
 server/devpi_server/keyfs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/devpi_server/keyfs.py b/server/devpi_server/keyfs.py
index ed5205b..2229916 100644
--- a/server/devpi_server/keyfs.py
+++ b/server/devpi_server/keyfs.py
@@ -735,6 +735,7 @@ class Transaction(object):
         if not records and not self.conn.dirty_files:
             threadlog.debug("nothing to commit, just closing tx")
             result = self._close()
+            self._run_listeners(self._success_listeners)
             self._run_listeners(self._finished_listeners)
             return result
         try:
-- 
2.43.0


From bff982ac243d2f44fa08eedaa42640e7127e2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:52 +0000
Subject: [PATCH 19/81] fix: accept parameters in the content type of mirrored
 JSON pages

---
 server/devpi_server/mirror.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index f5b58b7..39f5f2a 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -43,6 +43,12 @@ SIMPLE_API_ACCEPT = ", ".join((
     "text/html;q=0.01"))
 
 
+def is_simple_json_response(response):
+    # the content type may have parameters like a charset
+    content_type = response.headers.get("content-type") or ""
+    return content_type.partition(";")[0].strip().lower() == SIMPLE_API_V1_JSON
+
+
 class Link(URL):
     def __init__(self, url="", *args, **kwargs):
         self.requires_python = kwargs.pop('requires_python', None)
@@ -442,7 +448,7 @@ class MirrorStage(BaseStage):
             raise self.UpstreamError(
                 "URL %r returned %s %s",
                 self.mirror_url, response.status_code, response.reason)
-        if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
+        if is_simple_json_response(response):
             parser = ProjectJSONv1Parser(response.url)
             parser.feed(response.json())
         else:
@@ -632,7 +638,7 @@ class MirrorStage(BaseStage):
         # make sure we don't store credential in the database
         response_url = URL(response.url).replace(username=None, password=None)
         # parse simple index's link
-        if response.headers.get('content-type') == SIMPLE_API_V1_JSON:
+        if is_simple_json_response(response):
             releaselinks = parse_index_v1_json(response_url, text)
         else:
             releaselinks = parse_index(response_url, text).releaselinks
-- 
2.43.0


From dc6f87874994a9d2d73a83ab0c79926cc0269f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 20/81] fix: answer a refresh with failing upstream with 404 or
 502 instead of 500

---
 server/devpi_server/views.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 0766529..3aa4ef5 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -880,8 +880,16 @@ class PyPIView:
         for stage in context.stage.sro():
             if stage.ixconfig["type"] != "mirror":
                 continue
+            if stage.has_project_perstage(context.project) is False:
+                continue
             stage.clear_simplelinks_cache(context.project)
-            stage.get_simplelinks_perstage(context.project)
+            try:
+                stage.get_simplelinks_perstage(context.project)
+            except stage.UpstreamNotFoundError as e:
+                abort(self.request, 404, e.msg)
+            except stage.UpstreamError as e:
+                threadlog.error(e.msg)
+                abort(self.request, 502, e.msg)
         return HTTPFound(location=self.request.route_url(
             "/{user}/{index}/+simple/{project}/",
             user=context.username, index=context.index, project=context.project))
-- 
2.43.0


From 1b0b318c74f942b287d30d495515e33f9a2e6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:40 +0000
Subject: [PATCH 21/81] fix: keep files yanked without reason yanked in JSON
 simple pages

---
 server/devpi_server/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 3aa4ef5..d225fad 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -762,7 +762,8 @@ class PyPIView:
             if link.require_python is not None:
                 data["requires-python"] = link.require_python
             if link.yanked is not None and link.yanked is not False:
-                data["yanked"] = link.yanked
+                # an empty reason has to be the boolean
+                data["yanked"] = True if link.yanked == "" else link.yanked
             info = json.dumps(data, indent=None, sort_keys=False)
             if first:
                 yield f'{info}'.encode("utf-8")
-- 
2.43.0


From 5e1bb171d17d5c0700cc7a20b731ed0821649431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 22/81] fix: treat unreadable pages of a mirrored index as
 upstream errors

---
 server/devpi_server/mirror.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 39f5f2a..3b456ea 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -448,12 +448,17 @@ class MirrorStage(BaseStage):
             raise self.UpstreamError(
                 "URL %r returned %s %s",
                 self.mirror_url, response.status_code, response.reason)
-        if is_simple_json_response(response):
-            parser = ProjectJSONv1Parser(response.url)
-            parser.feed(response.json())
-        else:
-            parser = ProjectHTMLParser(response.url)
-            parser.feed(response.text)
+        try:
+            if is_simple_json_response(response):
+                parser = ProjectJSONv1Parser(response.url)
+                parser.feed(response.json())
+            else:
+                parser = ProjectHTMLParser(response.url)
+                parser.feed(response.text)
+        except (KeyError, OSError, TypeError, ValueError) as e:
+            # the connection failed while reading, or the content is invalid
+            raise self.UpstreamError("invalid response for URL %r: %s" % (
+                self.mirror_url, lazy_format_exception(e))) from e
         return (
             {normalize_name(x): x for x in parser.projects},
             response.headers.get("ETag"))
@@ -638,10 +643,14 @@ class MirrorStage(BaseStage):
         # make sure we don't store credential in the database
         response_url = URL(response.url).replace(username=None, password=None)
         # parse simple index's link
-        if is_simple_json_response(response):
-            releaselinks = parse_index_v1_json(response_url, text)
-        else:
-            releaselinks = parse_index(response_url, text).releaselinks
+        try:
+            if is_simple_json_response(response):
+                releaselinks = parse_index_v1_json(response_url, text)
+            else:
+                releaselinks = parse_index(response_url, text).releaselinks
+        except (KeyError, TypeError, ValueError) as e:
+            raise self.UpstreamError("invalid response on GET %r: %s" % (
+                url, lazy_format_exception(e))) from e
         num_releaselinks = len(releaselinks)
         key_hrefs = [None] * num_releaselinks
         requires_python = [None] * num_releaselinks
-- 
2.43.0


From cab00210385f6c3dfec9c3dc6e8b8b0591ccd5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 23/81] fix: push files from mirrors which only announce md5
 hashes

---
 server/devpi_server/filestore.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/devpi_server/filestore.py b/server/devpi_server/filestore.py
index 58dc52d..d0ab9c7 100644
--- a/server/devpi_server/filestore.py
+++ b/server/devpi_server/filestore.py
@@ -371,6 +371,12 @@ class FileStore:
         if dir_hash_spec is None:
             if hashes is None:
                 hashes = get_hashes(content_or_file)
+            else:
+                # for example a file from a mirror which only provides md5
+                hashes = Digests(hashes)
+                missing_hash_types = hashes.get_missing_hash_types()
+                if missing_hash_types:
+                    hashes.update(get_hashes(content_or_file, hash_types=missing_hash_types))
             dir_hash_spec = hashes.get_default_spec()
         hashdir_a, hashdir_b = make_splitdir(dir_hash_spec)
         key = self.keyfs.STAGEFILE(
-- 
2.43.0


From 1bc97653478ec17640e95fd485e4453e264cb4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 24/81] fix: answer a push of files which can not be downloaded
 with 502 instead of 500

---
 server/devpi_server/views.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index d225fad..508c288 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -34,6 +34,7 @@ from pyramid.traversal import DefaultRootFactory
 from pyramid.view import exception_view_config
 from pyramid.view import view_config
 from urllib.parse import urlparse
+from urllib3.exceptions import HTTPError
 import itertools
 import json
 from devpi_common.request import new_requests_session
@@ -1164,8 +1165,12 @@ class PyPIView:
             logs = link.get_logs()
             del link
             if should_fetch_remote_file(entry, self.request.headers):
-                for _data in iter_fetch_remote_file(stage, entry, entry.url):
-                    pass
+                try:
+                    for _data in iter_fetch_remote_file(stage, entry, entry.url):
+                        pass
+                except (ValueError, HTTPError) as err:
+                    # the download was incomplete or had the wrong content
+                    raise BadGateway(str(err)) from err
                 # re-get entry for current metadata which might have
                 # added hashes if a file had to be streamed from a remote
                 entry = self.xom.filestore.get_file_entry(entry.relpath)
-- 
2.43.0


From 443d7497913ed266328f0433c134e73a82951946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:27 +0000
Subject: [PATCH 25/81] fix: quote file names in links of simple pages

---
 server/devpi_server/views.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 508c288..95b903c 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -33,6 +33,7 @@ from pyramid.threadlocal import RequestContext
 from pyramid.traversal import DefaultRootFactory
 from pyramid.view import exception_view_config
 from pyramid.view import view_config
+from urllib.parse import quote
 from urllib.parse import urlparse
 from urllib3.exceptions import HTTPError
 import itertools
@@ -708,13 +709,13 @@ class PyPIView:
             url = URL(application_url)
 
             def make_url(href):
-                return url.joinpath(href)
+                return url.joinpath(quote_href(href))
         else:
             # for relpath we need the path of the current page
-            url = URL(self.request.path_info)
+            url = URL(quote_href(self.request.path_info))
 
             def make_url(href):
-                return URL(url.relpath("/" + href))
+                return URL(url.relpath("/" + quote_href(href)))
 
         return make_url
 
@@ -736,13 +737,13 @@ class PyPIView:
 
         for link in result:
             stage = "/".join(link.href.split("/", 2)[:2])
-            attribs = 'href="%s"' % make_url(link.href).url
+            attribs = 'href="%s"' % escape(make_url(link.href).url)
             if link.require_python is not None:
                 attribs += ' data-requires-python="%s"' % escape(link.require_python)
             if link.yanked is not None and link.yanked is not False:
                 yanked = "" if link.yanked is True else link.yanked
                 attribs += ' data-yanked="%s"' % escape(yanked)
-            data = dict(stage=stage, attribs=attribs, key=link.key)
+            data = dict(stage=stage, attribs=attribs, key=escape(link.key))
             yield '{stage} <a {attribs}>{key}</a><br/>\n'.format(
                 **data).encode('utf-8')
 
@@ -1902,6 +1903,12 @@ def iter_fetch_remote_file(stage, entry, url):
         yield from iter_remote_file_replica(stage, entry, url)
 
 
+def quote_href(href):
+    """ quote the path part of an href with an optional hash fragment. """
+    (path, sep, fragment) = href.partition("#")
+    return quote(path, safe="/+!@:$,;=~()*") + sep + fragment
+
+
 def url_for_entrypath(request, entrypath):
     parts = entrypath.split("/")
     user, index = parts[:2]
-- 
2.43.0


From 1b28fdcee41aacb0bfff20d67ea96a428e6968bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 26/81] fix: accept a trailing slash in the outside URL and
 remove its path only as whole segments

---
 server/devpi_server/middleware.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/devpi_server/middleware.py b/server/devpi_server/middleware.py
index 51fbfc9..abe6ef7 100644
--- a/server/devpi_server/middleware.py
+++ b/server/devpi_server/middleware.py
@@ -14,8 +14,10 @@ class OutsideURLMiddleware(object):
             outside_url = urlparse(outside_url)
             environ['wsgi.url_scheme'] = outside_url.scheme
             environ['HTTP_HOST'] = outside_url.netloc
-            if outside_url.path:
-                environ['SCRIPT_NAME'] = outside_url.path
-                if environ['PATH_INFO'].startswith(outside_url.path):
-                    environ['PATH_INFO'] = environ['PATH_INFO'][len(outside_url.path):]
+            path = outside_url.path.rstrip("/")
+            if path:
+                environ['SCRIPT_NAME'] = path
+                # only remove whole path segments
+                if f"{environ['PATH_INFO']}/".startswith(f"{path}/"):
+                    environ['PATH_INFO'] = environ['PATH_INFO'][len(path):]
         return self.app(environ, start_response)
-- 
2.43.0


From 52d716cff5ce72d68194484a95040e87b86e1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 27/81] fix: consult each index only once in the resolution
 order

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index b1337e3..a2699c4 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1129,6 +1129,9 @@ class BaseStage(object):
         devpiserver_sro_skip = self.xom.config.hook.devpiserver_sro_skip
         while todo:
             stage = todo.pop(0)
+            if stage.name in seen:
+                # reached by another path already
+                continue
             yield stage
             seen.add(stage.name)
             for base in stage.ixconfig.get("bases", ()):
-- 
2.43.0


From da42d5482eb6db6f3f7b57bcfd277c4796a6e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:57 +0000
Subject: [PATCH 28/81] fix: keep plugin provided index options which aren't
 part of a modification

---
 server/devpi_server/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index a2699c4..548b9c8 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -739,7 +739,8 @@ class BaseStage(object):
                     "existing index configuration keys for '%s': %s"
                     % (index_type, ", ".join(sorted(conflicting))))
             for key, value in defaults.items():
-                new_value = kwargs.pop(key, value)
+                # keep the current value if it isn't changed
+                new_value = kwargs.pop(key, self.ixconfig.get(key, value))
                 if isinstance(value, bool):
                     new_value = ensure_boolean(new_value)
                 elif isinstance(value, ACLList):
-- 
2.43.0


From fe48286e3f8d6b00a56dd3e5c4b1350cd5bf8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 29/81] fix: don't accept the names of the special principals
 as user names

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 548b9c8..127f97f 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -146,6 +146,9 @@ class RootModel:
             raise InvalidUser(
                 "username '%s' contains characters that aren't allowed. "
                 "Any ascii symbol besides -.@_ is blocked." % username)
+        if username in (Authenticated, Everyone):
+            # these have a special meaning in the ACLs of users and indexes
+            raise InvalidUser("username '%s' is reserved." % username)
         user = User(self, username)
         kwargs.update(created=strftime("%Y-%m-%dT%H:%M:%SZ", gmtime()))
         user._modify(password=password, **kwargs)
-- 
2.43.0


From 06a9fe3b2832fd38c1a04278acddf1a0cd044d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 30/81] fix: don't lose the tox results of a release which is
 pushed onto its own index

---
 server/devpi_server/views.py | 37 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 95b903c..13ee600 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1177,6 +1177,15 @@ class PyPIView:
                 entry = self.xom.filestore.get_file_entry(entry.relpath)
             target_stage.check_nonvolatile_filename(
                 name, version, entry.basename)
+            # get the dependent tox results before the release file is
+            # stored, because if the target is the source, then they are
+            # removed together with the release file that is replaced
+            toxresults = [
+                (toxlink.entry.file_get_content(),
+                 toxlink.entry.hashes,
+                 toxlink.get_logs())
+                for toxlink in links["toxresult"]
+                if toxlink.for_entrypath == entry.relpath]
             with entry.file_open_read() as f:
                 new_link = target_stage.store_releasefile(
                     name, version, entry.basename, f,
@@ -1194,21 +1203,19 @@ class PyPIView:
             yield (200, "store_releasefile", new_entry.relpath)
             # also store all dependent tox results
             tstore = target_stage.get_linkstore_perstage(name, version)
-            for toxlink in links["toxresult"]:
-                if toxlink.for_entrypath == entry.relpath:
-                    ref_link = tstore.get_links(entrypath=new_entry.relpath)[0]
-                    with toxlink.entry.file_open_read() as f:
-                        tlink = target_stage.store_toxresult(
-                            ref_link, f, hashes=toxlink.entry.hashes)
-                    tlink.add_logs(
-                        x for x in toxlink.get_logs()
-                        if x.get('what') != 'overwrite')
-                    tlink.add_log(
-                        'push',
-                        self.request.authenticated_userid,
-                        src=self.context.stage.name,
-                        dst=target_stage.name)
-                    yield (200, "store_toxresult", tlink.entrypath)
+            for content, hashes, toxlogs in toxresults:
+                ref_link = tstore.get_links(entrypath=new_entry.relpath)[0]
+                tlink = target_stage.store_toxresult(
+                    ref_link, content, hashes=hashes)
+                tlink.add_logs(
+                    x for x in toxlogs
+                    if x.get('what') != 'overwrite')
+                tlink.add_log(
+                    'push',
+                    self.request.authenticated_userid,
+                    src=self.context.stage.name,
+                    dst=target_stage.name)
+                yield (200, "store_toxresult", tlink.entrypath)
         for link in links.get("doczip", ()):
             with link.entry.file_open_read() as doczip:
                 new_link = target_stage.store_doczip(
-- 
2.43.0


From 6fcde585e39a72ee70439c0f688c985b3a20f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:44 +0000
Subject: [PATCH 31/81] fix: reject passwords of users without a stored
 password hash

---
 server/devpi_server/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 127f97f..513e12c 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -414,7 +414,10 @@ class User:
         if not userconfig:
             return False
         salt = userconfig.get("pwsalt")
-        pwhash = userconfig["pwhash"]
+        pwhash = userconfig.get("pwhash")
+        if not pwhash:
+            # created for a user authenticated by a plugin
+            return False
         valid, newhash = verify_and_update_password_hash(password, pwhash, salt)
         if valid:
             if newhash and self.keyfs.tx.write:
-- 
2.43.0


From a2d82af03ecea9686cd6634e801219900c80b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:44 +0000
Subject: [PATCH 32/81] fix: treat unusable password hashes like a wrong
 password

---
 server/devpi_server/auth.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/auth.py b/server/devpi_server/auth.py
index 7eb74e2..4421fff 100644
--- a/server/devpi_server/auth.py
+++ b/server/devpi_server/auth.py
@@ -186,7 +186,11 @@ pwd_context = CryptContext(schemes=["argon2", DevpiHandler], deprecated="auto")
 def verify_and_update_password_hash(password, hash, salt=None):
     if salt is not None:
         hash = "%s:%s" % (salt, hash)
-    (valid, newhash) = pwd_context.verify_and_update(password, hash)
+    try:
+        (valid, newhash) = pwd_context.verify_and_update(password, hash)
+    except ValueError:
+        # an unusable hash, or a password which is never accepted
+        return (False, None)
     assert newhash is None or isinstance(newhash, str)
     return (valid, newhash)
 
-- 
2.43.0


From 0d8bbd4f09df01cda88cf1bda33356d32f4adfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:47 +0000
Subject: [PATCH 33/81] fix: answer an external push with failing uploads with
 502 in all cases

---
 server/devpi_server/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 13ee600..707e405 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1154,7 +1154,8 @@ class PyPIView:
                         else:
                             self.log.debug("send finished, status: %s", r.status_code)
                             results.append((r.status_code, "docfile", name))
-                if r.status_code in ok_codes:
+                uploads = [x for x in results if x[1] != "register"]
+                if proceed and all(x[0] in ok_codes for x in uploads):
                     apireturn(200, result=results, type="actionlog")
                 else:
                     apireturn(502, result=results, type="actionlog")
-- 
2.43.0


From a3b912adfa40cc8f4c12c3f58954465f9ec902bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 34/81] fix: fetch files from the mirror for an external push

---
 server/devpi_server/views.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 707e405..e8394a7 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1113,14 +1113,18 @@ class PyPIView:
                     proceed = True
                 if proceed:
                     for link in links.get("releasefile", ()):
-                        entry = link.entry
+                        try:
+                            entry = self._get_entry_with_file(link.entry)
+                        except BadGateway as e:
+                            results.append((-1, "exception on release download:", e.args[0]))
+                            continue
                         file_metadata = metadata.copy()
                         file_metadata[":action"] = "file_upload"
                         basename = link.basename
                         pyver, filetype = get_pyversion_filetype(basename)
                         file_metadata["filetype"] = filetype
                         file_metadata["pyversion"] = pyver
-                        file_metadata["%s_digest" % link.best_available_hash_type] = link.best_available_hash_value
+                        file_metadata["%s_digest" % entry.best_available_hash_type] = entry.best_available_hash_value
                         content = entry.file_get_content()
                         self.log.info(
                             "sending %s to %s, metadata %s",
@@ -1160,22 +1164,25 @@ class PyPIView:
                 else:
                     apireturn(502, result=results, type="actionlog")
 
-    def _push_links(self, links, target_stage, name, version):
+    def _get_entry_with_file(self, entry):
+        if not should_fetch_remote_file(entry, self.request.headers):
+            return entry
         stage = self.context.stage
+        try:
+            for _data in iter_fetch_remote_file(stage, entry, entry.url):
+                pass
+        except (ValueError, HTTPError) as err:
+            # the download was incomplete or had the wrong content
+            raise BadGateway(str(err)) from err
+        # re-get entry for current metadata which might have
+        # added hashes if a file had to be streamed from a remote
+        return self.xom.filestore.get_file_entry(entry.relpath)
+
+    def _push_links(self, links, target_stage, name, version):
         for link in links.get("releasefile", ()):
-            entry = link.entry
+            entry = self._get_entry_with_file(link.entry)
             logs = link.get_logs()
             del link
-            if should_fetch_remote_file(entry, self.request.headers):
-                try:
-                    for _data in iter_fetch_remote_file(stage, entry, entry.url):
-                        pass
-                except (ValueError, HTTPError) as err:
-                    # the download was incomplete or had the wrong content
-                    raise BadGateway(str(err)) from err
-                # re-get entry for current metadata which might have
-                # added hashes if a file had to be streamed from a remote
-                entry = self.xom.filestore.get_file_entry(entry.relpath)
             target_stage.check_nonvolatile_filename(
                 name, version, entry.basename)
             # get the dependent tox results before the release file is
-- 
2.43.0


From dced7f742da0adc037f68e1042802dc27e53373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:28 +0000
Subject: [PATCH 35/81] fix: answer 400 for JSON of an unexpected type or with
 values that can't be stored

---
 server/devpi_server/views.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index e8394a7..a338158 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -47,7 +47,9 @@ from .filestore import BadGateway
 from .filestore import RunningHashes
 from .filestore import get_hashes
 from .filestore import get_seekable_content_or_file
+from .fileutil import DumpError
 from .fileutil import buffered_iterator
+from .fileutil import dumps
 from .keyfs import KeyfsTimeoutError
 from .model import InvalidIndex, InvalidIndexconfig, InvalidUser, InvalidUserconfig
 from .model import ReadonlyIndex
@@ -610,8 +612,11 @@ class PyPIView:
             apireturn(403, tox_result_handling.msg)
         if tox_result_handling._skip:
             apireturn(200, tox_result_handling.msg)
-        # the getjson call validates that we got valid json
-        getjson(self.request)
+        # validate that we got valid json
+        try:
+            self.request.json_body  # noqa: B018
+        except (ValueError, RecursionError):
+            abort(self.request, 400, "Bad request: could not decode json")
         # but we store the original body
         toxresultdata = self.request.body
         hashes = get_hashes(toxresultdata)
@@ -952,7 +957,7 @@ class PyPIView:
         permission="index_modify")
     def index_modify(self):
         stage = self.context.stage
-        json = getjson(self.request)
+        json = getjson(self.request, types=(dict, list))
         if isinstance(json, list):
             ixconfig = stage.get()
             for op, key, value in get_actions(json):
@@ -1934,11 +1939,19 @@ def url_for_entrypath(request, entrypath):
         route_name, user=user, index=index, relpath=relpath)
 
 
-def getjson(request):
+def getjson(request, types=dict):
+    """ Returns the decoded json body, which must be one of the types
+        and contain only values that can be stored. """
     try:
         d = request.json_body
-    except ValueError:
+    except (ValueError, RecursionError):
         abort(request, 400, "Bad request: could not decode json")
+    if not isinstance(d, types):
+        abort(request, 400, "Bad request: unexpected type of json data")
+    try:
+        dumps(d)
+    except (DumpError, UnicodeEncodeError, RecursionError):
+        abort(request, 400, "Bad request: unsupported value in json data")
     return d
 
 
-- 
2.43.0


From 497d23045f89aaffaf25e3cf62c3bbb4b0225721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:28 +0000
Subject: [PATCH 36/81] fix: answer 400 for invalid lists of index
 modifications

---
 server/devpi_server/views.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index a338158..bf00189 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -282,6 +282,8 @@ def is_mutating_http_method(method):
 def get_actions(json):
     result = []
     for item in json:
+        if not isinstance(item, str):
+            raise InvalidIndexconfig(f"Invalid modification {item!r}.")
         key, sep, value = item.partition('=')
         if key.endswith('+'):
             op = 'add'
@@ -960,7 +962,15 @@ class PyPIView:
         json = getjson(self.request, types=(dict, list))
         if isinstance(json, list):
             ixconfig = stage.get()
-            for op, key, value in get_actions(json):
+            try:
+                actions = get_actions(json)
+            except InvalidIndexconfig as e:
+                apireturn(400, message=", ".join(e.messages))
+            for op, key, value in actions:
+                if op in ('add', 'del') and not isinstance(
+                        ixconfig.get(key), (list, tuple)):
+                    apireturn(
+                        400, "The '%s' setting doesn't have a list of values" % key)
                 if op == 'del':
                     if value not in ixconfig[key]:
                         apireturn(
-- 
2.43.0


From f3c56f4fb3585a2e1f13f83315e421229ab4f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:28 +0000
Subject: [PATCH 37/81] fix: answer 400 for logins, user names and passwords of
 the wrong type

---
 server/devpi_server/model.py | 10 +++++++++-
 server/devpi_server/views.py |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 513e12c..0f28c0f 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -195,6 +195,9 @@ class RootModel:
             self.xom.del_singletons(f"{username}/{index}")
 
     def get_user(self, name):
+        if "/" in name:
+            # can't be part of a key
+            return None
         user = User(self, name)
         if user.key.exists():
             return user
@@ -395,9 +398,14 @@ class User:
 
     def _setpassword(self, userconfig, password, pwhash=None):
         if pwhash:
+            if not isinstance(pwhash, (bytes, str)):
+                raise InvalidUserconfig("Invalid password hash.")
             userconfig["pwhash"] = ensure_unicode(pwhash)
         else:
-            userconfig["pwhash"] = hash_password(password)
+            try:
+                userconfig["pwhash"] = hash_password(password)
+            except (TypeError, ValueError) as e:
+                raise InvalidUserconfig(f"Invalid password: {e}") from e
         threadlog.info("setting password for user %r", self.name)
 
     def delete(self):
diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index bf00189..c41393a 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1622,7 +1622,7 @@ class PyPIView:
         dict = getjson(request)
         user = dict.get("user", None)
         password = dict.get("password", None)
-        if user is None or password is None:
+        if not isinstance(user, str) or not isinstance(password, str):
             abort(request, 400, "Bad request: no user/password specified")
         proxyauth = self.auth.new_proxy_auth(user, password, request=request)
         if proxyauth:
@@ -1651,6 +1651,7 @@ class PyPIView:
     def user_patch(self):
         request = self.request
         kvdict = getjson(request)
+        abort_if_reserved_key(request, kvdict, ("self",))
         user = self.context.user
         password = kvdict.get("password")
         try:
@@ -1677,6 +1678,7 @@ class PyPIView:
         if user is not None:
             apireturn(409, "user already exists")
         kvdict = getjson(request)
+        abort_if_reserved_key(request, kvdict, ("self", "username"))
         if "password" in kvdict:  # and "email" in kvdict:
             try:
                 user = self.model.create_user(username, **kvdict)
-- 
2.43.0


From faedf541eb4326c445a9740829bc88551767e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 38/81] fix: answer 400 for index settings of the wrong type

---
 server/devpi_server/mirror.py |  4 ++--
 server/devpi_server/model.py  |  9 ++++++++-
 server/devpi_server/views.py  | 12 ++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/mirror.py b/server/devpi_server/mirror.py
index 3b456ea..1faaf86 100644
--- a/server/devpi_server/mirror.py
+++ b/server/devpi_server/mirror.py
@@ -323,14 +323,14 @@ class MirrorStage(BaseStage):
         if key == "volatile":
             return ensure_boolean(value)
         if key == "mirror_url":
-            if not value.startswith(("http://", "https://")):
+            if not f"{value}".startswith(("http://", "https://")):
                 raise self.InvalidIndexconfig([
                     "'mirror_url' option must be a URL."])
             return value
         if key == "mirror_cache_expiry":
             try:
                 value = int(value)
-            except (TypeError, ValueError):
+            except (OverflowError, TypeError, ValueError):
                 raise self.InvalidIndexconfig([
                     "'mirror_cache_expiry' option must be an integer"])
             return value
diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 0f28c0f..b40fcd3 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -167,6 +167,8 @@ class RootModel:
             raise InvalidIndex(
                 "indexname '%s' contains characters that aren't allowed. "
                 "Any ascii symbol besides -.@_ is blocked." % index)
+        if not isinstance(type, str):
+            raise InvalidIndexconfig("unknown index type %r" % (type,))
         stage = user._getstage(index, type, {"type": type})
         if isinstance(stage.customizer, UnknownCustomizer):
             raise InvalidIndexconfig("unknown index type %r" % type)
@@ -243,6 +245,8 @@ def ensure_boolean(value):
 
 def ensure_list(data):
     if isinstance(data, (list, tuple, set)):
+        if not all(isinstance(x, str) for x in data):
+            raise InvalidIndexconfig("Invalid values in list %r." % (data,))
         return list(data)
     if not hasattr(data, "split"):
         raise InvalidIndexconfig("Unknown list value %r." % data)
@@ -721,6 +725,9 @@ class BaseStage(object):
                 continue
             value = kwargs.pop(key)
             if value is not RemoveValue:
+                if value is None:
+                    raise InvalidIndexconfig(
+                        f"The key '{key}' needs a value.")
                 value = self.normalize_indexconfig_value(key, value)
                 if value is None:
                     raise ValueError(
@@ -1268,7 +1275,7 @@ class PrivateStage(BaseStage):
                 normalize_whitelist_name(x)
                 for x in ensure_list(value)]
         if key == "mirror_whitelist_inheritance":
-            value = value.lower()
+            value = f"{value}".lower()
             if value not in ("intersection", "union"):
                 raise InvalidIndexconfig(
                     "Unknown value '%s' for mirror_whitelist_inheritance, "
diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index c41393a..d70f899 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -929,6 +929,8 @@ class PyPIView:
             apireturn(403, "no permission to create index %s/%s" % (
                 self.context.username, self.context.index))
         json = getjson(self.request)
+        abort_if_reserved_key(
+            self.request, json, ("_keep_unknown", "index", "self", "user"))
         try:
             stage = self.context.user.create_stage(self.context.index, **json)
             ixconfig = stage.ixconfig
@@ -995,6 +997,9 @@ class PyPIView:
             json = ixconfig
         if json.get('type') == 'indexconfig' and 'result' in json:
             json = json['result']
+            if not isinstance(json, dict):
+                abort(self.request, 400, "Bad request: result is no indexconfig")
+        abort_if_reserved_key(self.request, json, ("_keep_unknown", "self"))
         oldconfig = dict(stage.ixconfig)
         if 'error_on_noop' in self.request.params and oldconfig == json:
             apireturn(400, message="The requested modifications resulted in no changes")
@@ -1967,6 +1972,13 @@ def getjson(request, types=dict):
     return d
 
 
+def abort_if_reserved_key(request, kvdict, keys):
+    # these are arguments of the methods the settings are passed to
+    for key in keys:
+        if key in kvdict:
+            abort(request, 400, f"Bad request: invalid setting '{key}'")
+
+
 def abort_if_invalid_filename(request, name, filename):
     if not is_valid_archive_name(filename):
         abort_submit(request, 400, f"{filename!r} is not a valid archive name")
-- 
2.43.0


From 4ce956d5c3b4e769f898f86aff260396f0f16ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 39/81] fix: answer 404 for test results of unknown files

---
 server/devpi_server/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index b40fcd3..b5d8732 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -831,7 +831,7 @@ class BaseStage(object):
 
     def get_link_from_entrypath(self, entrypath):
         entry = self.xom.filestore.get_file_entry(entrypath)
-        if entry.project is None:
+        if entry is None or entry.project is None:
             return None
         linkstore = self.get_linkstore_perstage(entry.project,
                                                 entry.version)
-- 
2.43.0


From e61f8fd97e42604b4302460de277d4c9e210fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 40/81] fix: answer 400 for submitted forms with missing or
 wrong fields

---
 server/devpi_server/views.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index d70f899..37c27cd 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1286,12 +1286,18 @@ class PyPIView:
             _content = request.POST["content"]
         except KeyError:
             abort_submit(request, 400, "content file field not found")
-        content_filename = _content.filename
+        content_filename = getattr(_content, "filename", None)
+        if content_filename is None:
+            abort_submit(request, 400, "content field is not a file")
         content_file = get_seekable_content_or_file(_content.file)
         hashes = get_hashes(content_file)
-        name = ensure_unicode(request.POST["name"])
+        name = request.POST.get("name")
+        if not isinstance(name, str):
+            abort_submit(request, 400, "name field not found")
         # version may be empty on plain doczip uploads
-        version = ensure_unicode(request.POST.get("version") or "")
+        version = request.POST.get("version", "")
+        if not isinstance(version, str):
+            abort_submit(request, 400, "version must not be a file")
         project = normalize_name(name)
 
         if action == "file_upload":
@@ -1305,6 +1311,8 @@ class PyPIView:
                         content_filename, version))
 
             abort_if_invalid_filename(request, name, content_filename)
+            if "version" not in request.POST:
+                abort_submit(request, 400, "version field not found")
             self._update_versiondata_form(stage, request.POST)
             try:
                 stage.check_nonvolatile_filename(
@@ -1367,7 +1375,9 @@ class PyPIView:
                 val = form.get(key, "")
                 if val == "UNKNOWN":
                     val = ""
-                assert isinstance(val, str), val
+                if not isinstance(val, str):
+                    abort_submit(
+                        self.request, 400, f"{key} must not be a file")
             metadata[key] = val
         return metadata
 
-- 
2.43.0


From c5dae90043b4aa45bee18bf499593f0b8aa70df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 41/81] fix: answer with client errors for incomplete or
 impossible pushes

---
 server/devpi_server/views.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 37c27cd..06baa5f 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1040,7 +1040,7 @@ class PyPIView:
     @view_config(route_name="/{user}/{index}/", request_method=("POST", "PUSH"))
     def pushrelease(self):
         request = self.request
-        if request.POST.get(':action'):
+        if ':action' in request.POST:
             # this is actually a submit
             return self.submit()
         stage = self.context.stage
@@ -1050,6 +1050,8 @@ class PyPIView:
             version = pushdata.pop("version")
         except KeyError:
             apireturn(400, message="no name/version specified in json")
+        if not isinstance(name, str) or not isinstance(version, str):
+            apireturn(400, message="name and version must be strings")
 
         # first, get all the links related to the source "to push" release
         try:
@@ -1057,6 +1059,10 @@ class PyPIView:
         except stage.MissesRegistration:
             apireturn(400, "there are no files for %s-%s on stage %s" % (
                 name, version, stage.name))
+        except stage.UpstreamNotFoundError as e:
+            apireturn(404, f"{e}")
+        except stage.UpstreamError as e:
+            apireturn(502, f"{e}")
         rels = {'releasefile', 'doczip', 'toxresult'}
         no_docs = pushdata.pop("no_docs", False)
         only_docs = pushdata.pop("only_docs", False)
@@ -1084,7 +1090,7 @@ class PyPIView:
             if pushdata:
                 keys = ', '.join(sorted(pushdata.keys()))
                 return apiresult(400, f"unknown additional options: {keys}")
-            parts = targetindex.split("/")
+            parts = f"{targetindex}".split("/")
             if len(parts) != 2:
                 apireturn(400, message="targetindex not in format user/index")
             target_stage = self.context.getstage(*parts)
@@ -1094,6 +1100,8 @@ class PyPIView:
             if not request.has_permission("upload", context=target_stage):
                 apireturn(401, message="user %r cannot upload to %r" % (
                     auth_user, targetindex))
+            if not hasattr(target_stage, "store_releasefile"):
+                apireturn(400, message=f"cannot push to mirror index {targetindex!r}")
             self._set_versiondata_dict(target_stage, metadata)
             results.append((200, "register", name, version,
                             "->", target_stage.name))
@@ -1107,9 +1115,11 @@ class PyPIView:
             apireturn(200, result=results, type="actionlog")
         else:
             register_project = pushdata.pop("register_project", False)
-            posturl = pushdata["posturl"]
-            username = pushdata["username"]
-            password = pushdata["password"]
+            posturl = pushdata.get("posturl")
+            username = pushdata.get("username")
+            password = pushdata.get("password")
+            if not all(isinstance(x, str) for x in (posturl, username, password)):
+                apireturn(400, message="no posturl/username/password specified in json")
             pypiauth = (username, password)
             # prepare metadata for submission
             metadata[":action"] = "submit"
-- 
2.43.0


From 582bff1a593848ea9def090cc2e7df64adf465b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 42/81] fix: answer 400 for paths and queries which are not
 UTF-8

---
 server/devpi_server/views.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 06baa5f..b49e935 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -19,6 +19,7 @@ from pyramid.interfaces import IRequestExtensions
 from pyramid.interfaces import IRootFactory
 from pyramid.interfaces import IRoutesMapper
 from pyramid.httpexceptions import HTTPException, HTTPFound, HTTPSuccessful
+from pyramid.httpexceptions import HTTPBadRequest
 from pyramid.httpexceptions import HTTPForbidden
 from pyramid.httpexceptions import HTTPInternalServerError
 from pyramid.httpexceptions import HTTPOk
@@ -199,7 +200,12 @@ def tween_request_logging(handler, registry):
         log = thread_push_log(tag)
         try:
             request.log = log
-            log.info("%s %s" % (request.method, request.path))
+            try:
+                # access the decoded path and query
+                (path, _query) = (request.path, request.GET)
+            except UnicodeDecodeError:
+                return HTTPBadRequest("path and query must be encoded as UTF-8")
+            log.info("%s %s" % (request.method, path))
             now = time()
             response = handler(request)
             duration = time() - now
-- 
2.43.0


From 1432fd21bfb81f4f43865c3ebe4a18a90565aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:42 +0000
Subject: [PATCH 43/81] fix: ignore indexes and timestamps when a user is
 created

---
 server/devpi_server/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index b5d8732..ef0eeb4 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -150,6 +150,8 @@ class RootModel:
             # these have a special meaning in the ACLs of users and indexes
             raise InvalidUser("username '%s' is reserved." % username)
         user = User(self, username)
+        user.validate_config(**kwargs)
+        kwargs = user.get_cleaned_config(**kwargs)
         kwargs.update(created=strftime("%Y-%m-%dT%H:%M:%SZ", gmtime()))
         user._modify(password=password, **kwargs)
         userlist.add(username)
-- 
2.43.0


From 30b7f2cb3cca9ea642588d697af6f9905cbdad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:43 +0000
Subject: [PATCH 44/81] fix: dump negative integers of more than four bytes

---
 server/devpi_server/fileutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/fileutil.py b/server/devpi_server/fileutil.py
index 691d98f..2f285a4 100644
--- a/server/devpi_server/fileutil.py
+++ b/server/devpi_server/fileutil.py
@@ -148,7 +148,7 @@ def _dump_frozenset(write, obj, _pack=pack):
 
 
 def _dump_int(write, obj, _pack=pack):
-    if obj > FOUR_BYTE_INT_MAX:
+    if not -FOUR_BYTE_INT_MAX - 1 <= obj <= FOUR_BYTE_INT_MAX:
         write(b'H')
         s = f"{obj}".encode("ascii")
         write(_pack("!i", len(s)))
-- 
2.43.0


From a6e0e25e3462907838327fb8b03a10bc4b93bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:32 +0000
Subject: [PATCH 45/81] fix: reject versions with null bytes

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index ef0eeb4..9d22ead 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1302,6 +1302,9 @@ class PrivateStage(BaseStage):
         if self.customizer.readonly:
             raise ReadonlyIndex("index is marked read only")
         validate_metadata(metadata)
+        if "\0" in metadata["version"]:
+            # can't be part of a file name
+            raise ValueError("Invalid version %r" % metadata["version"])
         project = metadata["name"]
         old = self.get_versiondata_perstage(project, metadata["version"])
         old_requires_python = old.get("requires_python")
-- 
2.43.0


From 552c4472e6fd45746982d28c3cdd2c39d08ceac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:32 +0000
Subject: [PATCH 46/81] fix: answer 400 for JSON with an unknown charset

---
 server/devpi_server/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index b49e935..dc4b192 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -623,7 +623,7 @@ class PyPIView:
         # validate that we got valid json
         try:
             self.request.json_body  # noqa: B018
-        except (ValueError, RecursionError):
+        except (LookupError, RecursionError, ValueError):
             abort(self.request, 400, "Bad request: could not decode json")
         # but we store the original body
         toxresultdata = self.request.body
@@ -1987,7 +1987,7 @@ def getjson(request, types=dict):
         and contain only values that can be stored. """
     try:
         d = request.json_body
-    except (ValueError, RecursionError):
+    except (LookupError, RecursionError, ValueError):
         abort(request, 400, "Bad request: could not decode json")
     if not isinstance(d, types):
         abort(request, 400, "Bad request: unexpected type of json data")
-- 
2.43.0


From 82712db172da4f86bc921aadca440117447e58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 47/81] fix: answer 400 for forms which are not encoded as
 UTF-8

---
 server/devpi_server/views.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index dc4b192..284da54 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -205,6 +205,9 @@ def tween_request_logging(handler, registry):
                 (path, _query) = (request.path, request.GET)
             except UnicodeDecodeError:
                 return HTTPBadRequest("path and query must be encoded as UTF-8")
+            if request.charset != "UTF-8" and request.content_type in (
+                    "application/x-www-form-urlencoded", "multipart/form-data"):
+                return HTTPBadRequest("forms must be encoded as UTF-8")
             log.info("%s %s" % (request.method, path))
             now = time()
             response = handler(request)
-- 
2.43.0


From f0356eae0fe58f2c27fa86ca37d0bda6c452fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 48/81] fix: answer 400 for slashes in submitted versions and
 file names

---
 server/devpi_server/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 284da54..9d836e1 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1317,6 +1317,8 @@ class PyPIView:
         version = request.POST.get("version", "")
         if not isinstance(version, str):
             abort_submit(request, 400, "version must not be a file")
+        if "/" in version:
+            abort_submit(request, 400, f"invalid version {version!r}")
         project = normalize_name(name)
 
         if action == "file_upload":
@@ -2009,7 +2011,7 @@ def abort_if_reserved_key(request, kvdict, keys):
 
 
 def abort_if_invalid_filename(request, name, filename):
-    if not is_valid_archive_name(filename):
+    if "/" in filename or not is_valid_archive_name(filename):
         abort_submit(request, 400, f"{filename!r} is not a valid archive name")
     if normalize_name(filename).startswith(normalize_name(name)):
         return
-- 
2.43.0


From 788e46ee1a2727e738938cbb639188422dab0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 49/81] fix: answer 400 for password salts of the wrong type

---
 server/devpi_server/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 9d22ead..ebcb206 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -368,6 +368,8 @@ class User:
 
     def _modify(self, password=None, pwhash=None, **kwargs):
         self.validate_config(**kwargs)
+        if not isinstance(kwargs.get("pwsalt"), (str, type(None))):
+            raise InvalidUserconfig("Invalid password salt.")
         modified = {}
         with self.key.update() as userconfig:
             if password is not None or pwhash:
-- 
2.43.0


From ab18080aa7bb193c95880ee5184c578543269bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:59 +0000
Subject: [PATCH 50/81] fix: answer 400 for forms which can't be decoded

---
 server/devpi_server/views.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 9d836e1..2bf37ce 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1049,7 +1049,7 @@ class PyPIView:
     @view_config(route_name="/{user}/{index}/", request_method=("POST", "PUSH"))
     def pushrelease(self):
         request = self.request
-        if ':action' in request.POST:
+        if ':action' in getform(request):
             # this is actually a submit
             return self.submit()
         stage = self.context.stage
@@ -1292,7 +1292,7 @@ class PyPIView:
                 return response
             abort_submit(request, 403, "no permission to submit")
         try:
-            action = request.POST[":action"]
+            action = getform(request)[":action"]
         except KeyError:
             abort_submit(request, 400, ":action field not found")
         if action == "submit":
@@ -1987,6 +1987,13 @@ def url_for_entrypath(request, entrypath):
         route_name, user=user, index=index, relpath=relpath)
 
 
+def getform(request):
+    try:
+        return request.POST
+    except ValueError:
+        abort(request, 400, "Bad request: could not decode form")
+
+
 def getjson(request, types=dict):
     """ Returns the decoded json body, which must be one of the types
         and contain only values that can be stored. """
-- 
2.43.0


From cd9df6d31d00415005cedd901d4220ee2099d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:02 +0000
Subject: [PATCH 51/81] fix: don't allow an empty password for imported users
 without a password

---
 server/devpi_server/importexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/importexport.py b/server/devpi_server/importexport.py
index 6d46b6a..8083e8f 100644
--- a/server/devpi_server/importexport.py
+++ b/server/devpi_server/importexport.py
@@ -405,7 +405,7 @@ class Importer:
                 if username == "root":
                     user = self.xom.model.get_user(username)
                 if user is None:
-                    user = self.xom.model.create_user(username, password="")
+                    user = self.xom.model.create_user(username, password=None)
                     # missing creation time is set to epoch for regular users
                     userconfig.setdefault("created", "1970-01-01T00:00:00Z")
                 user._set(userconfig)
-- 
2.43.0


From ed500efadd1185bbcad7e9abf5d751fc88f491ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:02 +0000
Subject: [PATCH 52/81] fix: don't keep initial settings of root/pypi on import

---
 server/devpi_server/importexport.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/devpi_server/importexport.py b/server/devpi_server/importexport.py
index 8083e8f..49c7b98 100644
--- a/server/devpi_server/importexport.py
+++ b/server/devpi_server/importexport.py
@@ -10,6 +10,7 @@ from devpi_common.validation import normalize_name
 from devpi_common.metadata import BasenameMeta
 from devpi_common.url import URL
 from devpi_server import __version__ as server_version
+from devpi_server.model import RemoveValue
 from devpi_server.model import is_valid_name
 from devpi_server.model import get_stage_customizer_classes
 from .filestore import Digests
@@ -466,6 +467,12 @@ class Importer:
                     stage = self.xom.model.getstage(stagename)
                     if self.xom.config.no_root_pypi:
                         continue
+                    if stage is not None:
+                        # the settings from initialization don't apply
+                        defaults = dict(stage.get_default_config_items())
+                        for key in set(stage.ixconfig).difference(
+                                defaults, indexconfig, ("type",)):
+                            indexconfig[key] = RemoveValue
                 if stage is None:
                     # we create a stage without any config
                     stage = user.create_stage(index, type=indexconfig['type'])
-- 
2.43.0


From 183c70c8090e6e02f85bf5d345481320f0ce25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:44 +0000
Subject: [PATCH 53/81] fix: keep the log of documentation on export

---
 server/devpi_server/importexport.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/server/devpi_server/importexport.py b/server/devpi_server/importexport.py
index 49c7b98..26a62de 100644
--- a/server/devpi_server/importexport.py
+++ b/server/devpi_server/importexport.py
@@ -249,11 +249,11 @@ class IndexDump:
                 self.basedir.ensure(dir=1)
                 self.dump_releasefiles(linkstore)
                 self.dump_toxresults(linkstore)
-                entry = None
-                if hasattr(self.stage, 'get_doczip_entry'):
-                    entry = self.stage.get_doczip_entry(vername, version)
-                if entry:
-                    self.dump_docfile(vername, version, entry)
+                link = None
+                if hasattr(self.stage, 'get_doczip_link'):
+                    link = self.stage.get_doczip_link(vername, version)
+                if link:
+                    self.dump_docfile(vername, version, link)
         self.exporter.completed("index %r" % self.stage.name)
 
     def dump_releasefiles(self, linkstore):
@@ -299,13 +299,14 @@ class IndexDump:
         self.indexmeta["files"].append(d)
         self.exporter.completed(f"{type}: {relpath} ")
 
-    def dump_docfile(self, project, version, entry):
+    def dump_docfile(self, project, version, link):
         relpath = self.exporter.copy_file(
-            entry,
+            link.entry,
             self.basedir.join("%s-%s.doc.zip" % (project, version)))
         self.add_filedesc(
             "doczip", project, relpath,
-            version=version, entrymapping=entry.meta)
+            version=version, entrymapping=link.entry.meta,
+            log=link.get_logs())
 
 
 class Importer:
-- 
2.43.0


From 1c9566c746473285822871afd7c6c5aa4e0dffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:18 +0000
Subject: [PATCH 54/81] fix: import indexes with circular bases

---
 server/devpi_server/importexport.py | 36 ++++++++---------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/server/devpi_server/importexport.py b/server/devpi_server/importexport.py
index 26a62de..2dab157 100644
--- a/server/devpi_server/importexport.py
+++ b/server/devpi_server/importexport.py
@@ -641,7 +641,6 @@ class IndexTree:
     create in root->child order.
     """
     def __init__(self):
-        self.name2children = {}
         self.name2bases = {}
 
     def add(self, name, bases=None):
@@ -649,12 +648,6 @@ class IndexTree:
         while name in bases:
             bases.remove(name)
         self.name2bases[name] = bases
-        if not bases:
-            self.name2children.setdefault(None, []).append(name)
-        else:
-            for base in bases:
-                children = self.name2children.setdefault(base, [])
-                children.append(name)
 
     def validate(self):
         all_bases = set(itertools.chain.from_iterable(self.name2bases.values()))
@@ -668,25 +661,14 @@ class IndexTree:
 
     def iternames(self):
         self.validate()
-        pending = [None]
+        pending = list(self.name2bases)
         created = set()
         while pending:
-            name = pending.pop(0)
-            for base in self.name2bases.get(name, []):
-                if base not in created:
-                    pending.append(name)
-                    break
-            else:
-                if name not in created:
-                    if name:
-                        yield name
-                    created.add(name)
-                    for child in self.name2children.get(name, []):
-                        if child not in created:
-                            pending.append(child)
-        missed = set(self.name2bases) - created
-        if missed:
-            msg = (
-                f"The following stages couldn't be reached by the dependency "
-                f"tree built from the bases: {', '.join(sorted(missed))}")
-            raise Fatal(msg)
+            names = [
+                name for name in pending
+                if created.issuperset(self.name2bases[name])]
+            # bases can be circular, then we have to start somewhere
+            for name in names or pending[:1]:
+                yield name
+                created.add(name)
+            pending = [name for name in pending if name not in created]
-- 
2.43.0


From 64d5173ca213889a761b9dd5ab786d16d3358f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:51 +0000
Subject: [PATCH 55/81] fix: remove the simple links of deleted projects

---
 server/devpi_server/model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index ebcb206..f17e330 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1351,7 +1351,8 @@ class PrivateStage(BaseStage):
         project = normalize_name(project)
         for version in list(self.key_projversions(project).get()):
             self.del_versiondata(project, version, cleanup=False)
-        self._regen_simplelinks(project)
+        # nothing may be left for an index with the same name
+        self.key_projsimplelinks(project).delete()
         with self.key_projects.update() as projects:
             projects.remove(project)
         threadlog.info("deleting project %s", project)
@@ -1372,9 +1373,10 @@ class PrivateStage(BaseStage):
         self.key_projversion(project, version).delete()
         self.key_projversions(project).set(versions)
         if cleanup:
-            if not versions:
+            if versions:
+                self._regen_simplelinks(project)
+            else:
                 self.del_project(project)
-            self._regen_simplelinks(project)
 
     def del_entry(self, entry, cleanup=True):
         # we need to store project and version for use in cleanup part below
@@ -1385,9 +1387,10 @@ class PrivateStage(BaseStage):
         linkstore.remove_links(basename=entry.basename)
         entry.delete()
         if cleanup:
-            if not linkstore.get_links():
+            if linkstore.get_links():
+                self._regen_simplelinks(project)
+            else:
                 self.del_versiondata(project, version)
-            self._regen_simplelinks(project)
 
     def list_versions_perstage(self, project):
         return self.key_projversions(project).get()
-- 
2.43.0


From 68e467237774baff3888c3003764cafe027007d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:29 +0000
Subject: [PATCH 56/81] fix: refuse dot and dotdot as names of users and
 indexes

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index f17e330..70c25ff 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -308,6 +308,9 @@ name_char_blocklist_regexp = re.compile(
 
 
 def is_valid_name(name):
+    if name in ("", ".", ".."):
+        # these have a special meaning in paths
+        return False
     return not name_char_blocklist_regexp.search(name)
 
 
-- 
2.43.0


From a2dd1757196ade9d58f7d51724221bc9fa611e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:11 +0000
Subject: [PATCH 57/81] fix: remove all occurrences of a value from settings
 with a list of values

---
 server/devpi_server/views.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 2bf37ce..9b9dbc8 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -986,11 +986,9 @@ class PyPIView:
                     if value not in ixconfig[key]:
                         apireturn(
                             400, "The '%s' setting doesn't have value '%s'" % (key, value))
-                    if isinstance(ixconfig[key], tuple):
-                        ixconfig[key] = tuple(
-                            x for x in ixconfig[key] if x != value)
-                    else:
-                        ixconfig[key].remove(value)
+                    # the value may be in the list more than once
+                    ixconfig[key] = type(ixconfig[key])(
+                        x for x in ixconfig[key] if x != value)
                 elif op == 'add':
                     if value not in ixconfig[key]:
                         if isinstance(ixconfig[key], tuple):
-- 
2.43.0


From da5436e837dfa304a4b60e7b2e01a880ba9cc6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:11 +0000
Subject: [PATCH 58/81] fix: don't remove default values of plugins

---
 server/devpi_server/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 70c25ff..6ac94a6 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -767,6 +767,8 @@ class BaseStage(object):
                     "existing index configuration keys for '%s': %s"
                     % (index_type, ", ".join(sorted(conflicting))))
             for key, value in defaults.items():
+                if kwargs.get(key) is RemoveValue:
+                    raise InvalidIndexconfig("Default values can't be removed.")
                 # keep the current value if it isn't changed
                 new_value = kwargs.pop(key, self.ixconfig.get(key, value))
                 if isinstance(value, bool):
-- 
2.43.0


From 38685fe60dc4918983426522f0ea345d657a3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:50 +0000
Subject: [PATCH 59/81] fix: don't serve files outside of the unpacked
 documentation

---
 web/devpi_web/doczip.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 3eceec4..9949fb4 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -76,7 +76,8 @@ def docs_file_exists(stage, name, version, entry, relpath):
                     return False
     else:
         doc_path = unpack_docs(stage, name, version, entry)
-        if doc_path.join(relpath).isfile():
+        path = _unpacked_path(doc_path, relpath)
+        if path is not None and path.isfile():
             return True
     return False
 
@@ -85,7 +86,17 @@ def docs_file_path(stage, name, version, entry, relpath):
     if keep_docs_packed(stage.xom.config):
         return None
     doc_path = unpack_docs(stage, name, version, entry)
-    return doc_path.join(relpath)
+    return _unpacked_path(doc_path, relpath)
+
+
+def _unpacked_path(doc_path, relpath):
+    if "\0" in relpath:
+        return None
+    path = doc_path.join(relpath)
+    # only files of the documentation itself are served
+    if not path.relto(doc_path):
+        return None
+    return path
 
 
 def unpack_docs(stage, name, version, entry):
-- 
2.43.0


From ac217989c84fccbbba4f00e5b226a339dd2289cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:56 +0000
Subject: [PATCH 60/81] fix: refuse dot and dotdot as versions

---
 server/devpi_server/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 6ac94a6..c6a6c74 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1309,8 +1309,8 @@ class PrivateStage(BaseStage):
         if self.customizer.readonly:
             raise ReadonlyIndex("index is marked read only")
         validate_metadata(metadata)
-        if "\0" in metadata["version"]:
-            # can't be part of a file name
+        if "\0" in metadata["version"] or metadata["version"] in (".", ".."):
+            # can't be part of a path
             raise ValueError("Invalid version %r" % metadata["version"])
         project = metadata["name"]
         old = self.get_versiondata_perstage(project, metadata["version"])
-- 
2.43.0


From 7d3f140f0cc3567fd3a91dec59bc8c957e66fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 61/81] fix: skip test results which can't be interpreted

---
 common/devpi_common/viewhelp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/devpi_common/viewhelp.py b/common/devpi_common/viewhelp.py
index f429074..98bc79c 100644
--- a/common/devpi_common/viewhelp.py
+++ b/common/devpi_common/viewhelp.py
@@ -104,5 +104,6 @@ def iter_toxresults(links, load, newest=True):
             continue
         try:
             yield link, get_toxenvs(toxresult, seen, newest=newest)
-        except KeyError:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
+            # the uploaded data can have any structure
             yield link, None
-- 
2.43.0


From 53ce6aaea9a41e56e70578e9a346ba6795e4c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 62/81] fix: answer 404 or 502 for documentation when the stage
 or project is missing

---
 web/devpi_web/main.py  | 17 +++++++++++++----
 web/devpi_web/views.py |  5 ++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/web/devpi_web/main.py b/web/devpi_web/main.py
index 9f3a614..d93a30c 100644
--- a/web/devpi_web/main.py
+++ b/web/devpi_web/main.py
@@ -42,14 +42,23 @@ def macros(request):
     return result
 
 
+def _latest_version(context, *, stable=False):
+    stage = context.model.getstage(context.username, context.index)
+    if stage is None:
+        # the navigation is also shown on pages for errors
+        return context.version
+    try:
+        return stage.get_latest_version_perstage(context.project, stable=stable)
+    except stage.UpstreamError:
+        return context.version
+
+
 def navigation_version(context):
     version = context.version
     if version == 'latest':
-        stage = context.model.getstage(context.username, context.index)
-        version = stage.get_latest_version_perstage(context.project)
+        version = _latest_version(context)
     elif version == 'stable':
-        stage = context.model.getstage(context.username, context.index)
-        version = stage.get_latest_version_perstage(context.project, stable=True)
+        version = _latest_version(context, stable=True)
     return version
 
 
diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index 94f2aed..6282d4d 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -136,8 +136,11 @@ def get_doc_info(context, request, version=None, check_content=True):
     for doc_version in versions:
         try:
             linkstore = context.stage.get_linkstore_perstage(name, doc_version)
-        except context.stage.MissesRegistration:
+        except (context.stage.MissesRegistration, context.stage.UpstreamNotFoundError):
             continue
+        except context.stage.UpstreamError as e:
+            log.error(e.msg)
+            raise HTTPBadGateway(e.msg)
         links = linkstore.get_links(rel='doczip')
         if not links:
             continue
-- 
2.43.0


From acd1b6fc49926d64726fb42ed7fa1a7700c6a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 63/81] fix: ignore invalid page numbers of searches

---
 web/devpi_web/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index 6282d4d..d04e345 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -975,8 +975,8 @@ class SearchView:
         params = dict(self.request.params)
         params['query'] = params.get('query', '')
         try:
-            params['page'] = int(params.get('page'))
-        except TypeError:
+            params['page'] = max(1, int(params.get('page')))
+        except (TypeError, ValueError):
             params['page'] = 1
         return params
 
-- 
2.43.0


From 36a2c22187e5490b0c6512535af42fc1044da4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 64/81] fix: answer 404 for test results of unknown files

---
 web/devpi_web/views.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index d04e345..a88859d 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -426,6 +426,13 @@ def load_toxresult(link):
         return json.load(f)
 
 
+def get_link_or_404(linkstore, basename):
+    links = linkstore.get_links(basename=basename)
+    if not links:
+        raise HTTPNotFound("The file %s does not exist." % basename)
+    return links[0]
+
+
 def get_toxresults_info(linkstore, for_link, newest=True):
     result = []
     toxlinks = linkstore.get_links(rel="toxresult", for_entrypath=for_link)
@@ -847,7 +854,7 @@ def toxresults(context, request):
     linkstore = context.linkstore
     basename = request.matchdict['basename']
     toxresults = get_toxresults_info(
-        linkstore, linkstore.get_links(basename=basename)[0], newest=False)
+        linkstore, get_link_or_404(linkstore, basename), newest=False)
     return dict(
         _context=context,
         title="%s/: %s-%s toxresults" % (
@@ -871,7 +878,7 @@ def toxresult(context, request):
     toxresults = [
         x for x in get_toxresults_info(
             linkstore,
-            linkstore.get_links(basename=basename)[0], newest=False)
+            get_link_or_404(linkstore, basename), newest=False)
         if x['basename'] == toxresult]
     return dict(
         _context=context,
-- 
2.43.0


From 8142db38a4f615848dd168144370e6c1ffedbd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 65/81] fix: don't parse the body of index modifications as
 form

---
 server/devpi_server/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 9b9dbc8..293a96a 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1008,7 +1008,7 @@ class PyPIView:
                 abort(self.request, 400, "Bad request: result is no indexconfig")
         abort_if_reserved_key(self.request, json, ("_keep_unknown", "self"))
         oldconfig = dict(stage.ixconfig)
-        if 'error_on_noop' in self.request.params and oldconfig == json:
+        if 'error_on_noop' in self.request.GET and oldconfig == json:
             apireturn(400, message="The requested modifications resulted in no changes")
         try:
             ixconfig = stage.modify(**json)
-- 
2.43.0


From 7eb8ca334c3e9714770243e9cb7fc9ff65ab98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:24 +0000
Subject: [PATCH 66/81] fix: read force of deletions from the query string only

The body of a DELETE request was parsed as form, which fails for a
malformed multipart body with an internal error.
---
 server/devpi_server/views.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 293a96a..e7eeba0 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1472,7 +1472,7 @@ class PyPIView:
     def del_project(self):
         stage = self.context.stage
         project = self.context.project
-        force = 'force' in self.request.params
+        force = 'force' in self.request.GET
         if not stage.ixconfig["volatile"] and not force:
             apireturn(403, "project %r is on non-volatile index %s" % (
                 project, stage.name))
@@ -1517,7 +1517,7 @@ class PyPIView:
     def del_versiondata(self):
         stage = self.context.stage
         name, version = self.context.project, self.context.version
-        force = 'force' in self.request.params
+        force = 'force' in self.request.GET
         if not stage.ixconfig["volatile"] and not force:
             abort(self.request, 403, "cannot delete version on non-volatile index")
         try:
@@ -1615,7 +1615,7 @@ class PyPIView:
                  request_method="DELETE")
     def del_pkg(self):
         stage = self.context.stage
-        force = 'force' in self.request.params
+        force = 'force' in self.request.GET
         if not stage.ixconfig["volatile"] and not force:
             abort(self.request, 403, "cannot delete version on non-volatile index")
         relpath = self.request.path_info.strip("/")
-- 
2.43.0


From 2c2201aea2e63da4050d916f23e54f3da0c30f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:24 +0000
Subject: [PATCH 67/81] fix: answer 404 or 502 when the upstream has no links
 for a version

---
 web/devpi_web/views.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index a88859d..7a878a2 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -93,9 +93,12 @@ class ContextWrapper(object):
     def linkstore(self):
         try:
             return self.stage.get_linkstore_perstage(self.project, self.version)
-        except self.stage.MissesRegistration:
+        except (self.stage.MissesRegistration, self.stage.UpstreamNotFoundError):
             raise HTTPNotFound(
                 "%s-%s is not registered" % (self.project, self.version))
+        except self.stage.UpstreamError as e:
+            log.error(e.msg)
+            raise HTTPBadGateway(e.msg)
 
 
 # wrapper to make future changes easier
-- 
2.43.0


From dcfe2c374f274bd26da399319785069ab345b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:24 +0000
Subject: [PATCH 68/81] fix: quote the path in redirects of pages with trailing
 slash

---
 web/devpi_web/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index 7a878a2..b6c8006 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -33,6 +33,7 @@ from pyramid.interfaces import IRoutesMapper
 from pyramid.response import FileResponse, Response
 from pyramid.view import notfound_view_config, view_config
 from time import gmtime
+from urllib.parse import quote
 from xmlrpc.client import Fault, Unmarshaller, dumps
 import functools
 import json
@@ -266,6 +267,7 @@ def notfound(request):
                 qs = request.query_string
                 if qs:
                     qs = '?' + qs
+                nonslashpath = quote(nonslashpath, safe="/!$&'()*+,;=:@~")
                 return HTTPFound(location=request.application_url + nonslashpath + qs)
     request.response.status = 404
     return dict(msg=request.exception)
-- 
2.43.0


From 0106ec7357249b9caf60e58c6d5651299737f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:25 +0000
Subject: [PATCH 69/81] fix: show test results with keys which are no strings

---
 web/devpi_web/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/devpi_web/views.py b/web/devpi_web/views.py
index b6c8006..b053371 100644
--- a/web/devpi_web/views.py
+++ b/web/devpi_web/views.py
@@ -453,7 +453,7 @@ def get_toxresults_info(linkstore, for_link, newest=True):
                 status = 'failed'
             info = dict(
                 basename=toxlink.basename,
-                _key="-".join(toxenv.key),
+                _key="-".join(str(x) for x in toxenv.key),
                 host=toxenv.host,
                 platform=toxenv.platform,
                 envname=toxenv.envname,
-- 
2.43.0


From 1baf8600dce57fac6b26a2232936697fe6458659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:50 +0000
Subject: [PATCH 70/81] fix: refuse names and versions with slash in push
 requests

---
 server/devpi_server/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index e7eeba0..89ea292 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1059,6 +1059,8 @@ class PyPIView:
             apireturn(400, message="no name/version specified in json")
         if not isinstance(name, str) or not isinstance(version, str):
             apireturn(400, message="name and version must be strings")
+        if "/" in name or "/" in version:
+            apireturn(400, message="name and version must not contain a slash")
 
         # first, get all the links related to the source "to push" release
         try:
-- 
2.43.0


From e73fa8de78956481a9c4f89727391411fed51888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:42 +0000
Subject: [PATCH 71/81] fix: retry the replication of private files after a
 failed download

The error was logged as to be retried later, but the file was dropped from
the queue, so it was missing on the replica until it was requested there.
---
 server/devpi_server/replica.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index 765d38a..448846f 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -1076,7 +1076,13 @@ class FileReplicationThread:
                     url=r.url,
                     message=str(err),
                     relpath=entry.relpath))
-                return
+                stagename = '/'.join(relpath.split('/')[:2])
+                with self.xom.keyfs.read_transaction(at_serial=serial):
+                    stage = self.xom.model.getstage(stagename)
+                if stage.ixconfig['type'] == 'mirror':
+                    return
+                # the download of a private file failed, raise for retrying later
+                raise
 
             # in case there were errors before, we can now remove them
             self.shared_data.errors.remove(entry)
-- 
2.43.0


From 1211c8ed02ee44153d685515c34b2f2892fe7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:48 +0000
Subject: [PATCH 72/81] fix: keep replicated files which were deleted and added
 again

The newest change of a file is processed first, so an older deletion
removed the file of the newer change from the replica.
---
 server/devpi_server/replica.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index 448846f..1508cb8 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -964,6 +964,11 @@ class FileReplicationThread:
         relpath = key.relpath
         entry = self.xom.filestore.get_file_entry_from_key(key, meta=val)
         if val is None:
+            with keyfs.read_transaction():
+                if key.exists():
+                    # the file was added again in a later serial, which may
+                    # already have been processed
+                    return
             if back_serial >= 0:
                 with keyfs.get_connection(write=True) as conn:
                     # file was deleted, still might never have been replicated
-- 
2.43.0


From 117ce7a0ab108b57104bb2169db5bf3ecdc17c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:53 +0000
Subject: [PATCH 73/81] fix: relay the body of redirects on replicas

The body of the request to follow was used instead, which is None for
redirects of a POST, so the answer failed.
---
 server/devpi_server/replica.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/devpi_server/replica.py b/server/devpi_server/replica.py
index 1508cb8..4da5283 100644
--- a/server/devpi_server/replica.py
+++ b/server/devpi_server/replica.py
@@ -1309,12 +1309,12 @@ def proxy_write_to_primary(xom, request):
     the change is replicated back.
     """
     r = proxy_request_to_primary(xom, request, stream=True)
-    # for redirects, the body is already read and stored in the ``next``
-    # attribute (see requests.sessions.send)
+    # for redirects, the body is already read when the ``next`` attribute
+    # is set (see requests.sessions.send)
     if r.raw.closed and r.next:
         def app_iter():
             with contextlib.closing(r):
-                yield r.next.body
+                yield r.content
     else:
         def app_iter():
             with contextlib.closing(r):
-- 
2.43.0


From 2a08697f843be20ff201b24e7c9e16dbb7b684d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:49 +0000
Subject: [PATCH 74/81] fix: let users with names outside of latin-1 log in

---
 server/devpi_server/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 89ea292..9c221a3 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1664,7 +1664,7 @@ class PyPIView:
         if proxyauth:
             # set the credentials on the current request
             request.headers['X-Devpi-Auth'] = b64encode(
-                "%s:%s" % (user, proxyauth['password']))
+                f"{user}:{proxyauth['password']}".encode())
             # coherence check of the generated credentials
             if user != request.authenticated_userid:
                 apireturn(401, "user %r could not be authenticated" % user)
-- 
2.43.0


From 49312cd412abaa1a6492ab8fb4b47a52fe9a3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:59 +0000
Subject: [PATCH 75/81] fix: find stored credentials for URLs directly below a
 server with a path

---
 client/devpi/use.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/use.py b/client/devpi/use.py
index 1e011cb..1109863 100644
--- a/client/devpi/use.py
+++ b/client/devpi/use.py
@@ -105,7 +105,7 @@ class Current:
         while url:
             if url in d or url.path == '/':
                 break
-            url = url.joinpath('..')
+            url = url.joinpath('..' if url.path.endswith('/') else '.')
         return d.get(url.url, default)
 
     def _get_auth_dict(self):
-- 
2.43.0


From 0761e8db62b9fcbdeefef4f92e50b7fe1e68fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:59 +0000
Subject: [PATCH 76/81] fix: send login tokens only to the server they were
 stored for

---
 client/devpi/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/main.py b/client/devpi/main.py
index 770a011..8bc76e6 100644
--- a/client/devpi/main.py
+++ b/client/devpi/main.py
@@ -153,7 +153,7 @@ class Hub:
         try:
             data = json.dumps(kvdict) if kvdict is not None else None
             if auth is notset:
-                auth = self.current.get_auth()
+                auth = self.current.get_auth(url=url)
             set_devpi_auth_header(headers, auth)
             if basic_auth is notset:
                 basic_auth = self.current.get_basic_auth(url=url)
-- 
2.43.0


From d08877b42e2f39f6fae2003c35836944aabffb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:59 +0000
Subject: [PATCH 77/81] fix: drop the login token when redirected to another
 server

---
 common/devpi_common/request.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/devpi_common/request.py b/common/devpi_common/request.py
index 2081257..390856c 100644
--- a/common/devpi_common/request.py
+++ b/common/devpi_common/request.py
@@ -12,6 +12,12 @@ class RetrySession(Session):
             self.mount('https://', HTTPAdapter(max_retries=max_retries))
             self.mount('http://', HTTPAdapter(max_retries=max_retries))
 
+    def rebuild_auth(self, prepared_request, response):
+        super().rebuild_auth(prepared_request, response)
+        # same as for the Authorization header
+        if self.should_strip_auth(response.request.url, prepared_request.url):
+            prepared_request.headers.pop("X-Devpi-Auth", None)
+
 
 def new_requests_session(agent=None, max_retries=None):
     if agent is None:
-- 
2.43.0


From 8aba71a429beb0aa3ea07ade63386ee2a6ab0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:36 +0000
Subject: [PATCH 78/81] fix: keep the path of the server for paths starting
 with a slash

---
 client/devpi/getjson.py | 9 ++++++---
 client/devpi/use.py     | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/client/devpi/getjson.py b/client/devpi/getjson.py
index 5fc8211..ffb29e3 100644
--- a/client/devpi/getjson.py
+++ b/client/devpi/getjson.py
@@ -15,10 +15,10 @@ def main(hub, args=None):
         url = path_url
     elif not path_url.path.startswith("/") and not current.index:
         hub.fatal("cannot use relative path without an active index")
+    elif current.root_url and path_url.path.startswith("/"):
+        url = current.root_url.joinpath(path_url.path.lstrip("/"))
     elif current.index:
         url = current.index_url.addpath(path_url.path)
-    elif current.root_url:
-        url = current.root_url.addpath(path_url.path)
     else:
         hub.fatal("no server currently selected")
     if path_url.query:
@@ -45,7 +45,10 @@ def main_patchjson(hub, args=None):
 
     if path[0] != "/" and not current.index:
         hub.fatal("cannot use relative path without an active index")
-    url = current.index_url.addpath(path)
+    if path[0] == "/":
+        url = current.root_url.joinpath(path.lstrip("/"))
+    else:
+        url = current.index_url.addpath(path)
     r = hub.http_api("patch", url, kvdict=data, quiet=True, check_version=False)
     hub.line("PATCH REQUEST sent to %s" % url.url)
     hub.out_json(r._json)
diff --git a/client/devpi/use.py b/client/devpi/use.py
index 1109863..b4799fb 100644
--- a/client/devpi/use.py
+++ b/client/devpi/use.py
@@ -395,6 +395,9 @@ class Current:
             return self.get_user_url().addpath(indexname)
         if not slash:
             indexname = indexname.rstrip("/")
+        if indexname.startswith("/"):
+            # stay below the path of the server
+            indexname = indexname.lstrip("/")
         return self.root_url.joinpath(indexname, asdir=slash)
 
     def get_project_url(self, name, indexname=None):
-- 
2.43.0


From 80545c931826b9818d19f0df661cd3d6edef246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:36 +0000
Subject: [PATCH 79/81] fix: send credentials of users with non-ASCII names

---
 client/devpi/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/main.py b/client/devpi/main.py
index 8bc76e6..31b00d5 100644
--- a/client/devpi/main.py
+++ b/client/devpi/main.py
@@ -624,7 +624,7 @@ class HTTPReply(object):
 def set_devpi_auth_header(headers, auth):
     if auth:
         auth = "%s:%s" % auth
-        auth = b64encode(auth.encode("ascii")).decode("ascii")
+        auth = b64encode(auth.encode("utf-8")).decode("ascii")
         headers["X-Devpi-Auth"] = auth
 
 
-- 
2.43.0


From 3a51c4cbb7dbf8777869d5cbbf5799ebe7496032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:14 +0000
Subject: [PATCH 80/81] fix: report that there is no configuration to delete

---
 client/devpi/use.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/devpi/use.py b/client/devpi/use.py
index b4799fb..dbece50 100644
--- a/client/devpi/use.py
+++ b/client/devpi/use.py
@@ -498,7 +498,7 @@ def main(hub, args=None):
 
     if args.delete:
         if not hub.current.exists():
-            hub.error_and_out("NO configuration found")
+            hub.fatal("NO configuration found")
         hub.current.current_path.unlink()
         hub.info("REMOVED configuration at", hub.current.current_path)
         return
-- 
2.43.0


From cbb5be93ec569664022f304b37c515bf24bdc36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:01 +0000
Subject: [PATCH 81/81] fix: use the login of the shown user for requests

The user determined by DEVPI_USER, or from the stored logins if no user
is set, was shown as logged in, but requests were sent without or with
another login, and 'devpi use' then dropped the valid login.
---
 client/devpi/use.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/devpi/use.py b/client/devpi/use.py
index dbece50..a6fbc09 100644
--- a/client/devpi/use.py
+++ b/client/devpi/use.py
@@ -152,10 +152,14 @@ class Current:
 
     def get_auth(self, url=None, username=None):
         url = url if url is not None else self.root_url
-        username = username if username is not None else self.username
         auth = self._value_from_dict_by_url(self._get_auth_dict(), url)
         if not auth:
             return
+        if username is None:
+            # the same user as determined by get_auth_user
+            username = os.environ.get("DEVPI_USER", self.username)
+        if username is None:
+            username = auth[0][0]
         auth = dict(auth)
         auth = auth.get(username)
         return (username, auth) if auth is not None else None
-- 
2.43.0

