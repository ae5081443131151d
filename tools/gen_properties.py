"""Writes properties.jsonl (kept as code so that statement edits are reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(
            files=files.split(),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))


S = "server/devpi_server/"
C = "common/devpi_common/"

prop("C01", "Committed changes form one serial-ordered, snapshot-isolated history",
     "Every write transaction that changes something takes effect as a whole under exactly the next serial number, and one that is rolled back, doomed or changes nothing leaves no trace. A reader pinned to a serial sees, for every key, exactly the value (or absence) committed at or before that serial, and within a write transaction reads see that transaction's own pending changes. This holds for every history, any cache size, every shipped storage backend and across server restarts.",
     "histories configurations", "all sequences of set/modify/delete/commit/rollback/restart/pinned-read over keys of every value type, all cache sizes, both file-based storage backends",
     "tests exercise a few two- or three-step histories with the default cache; stale cache entries, wrong previous-serial links and lookups at old serials only show for particular interleavings of writes, rollbacks, pinned reads and cache evictions.",
     S + "keyfs.py " + S + "keyfs_sqlite.py " + S + "keyfs_sqlite_fs.py " + S + "keyfs_types.py",
     [("transaction read/write sets, back-serial walk and caches", S + "keyfs.py"), ("changelog and kv tables", S + "keyfs_sqlite.py")],
     [("serial", "number of the last committed change", S + "keyfs.py")], ["values read through keys in transactions", "changelog entries"])

prop("C02", "A crash at any point leaves a complete, consistent, reopenable server state",
     "If the server process dies at any single point while committing a change, then after restart the database opens and the whole change is either present or absent. Every key value then equals the state before or after the change, and each uploaded file recorded in that state is present on disk with its exact content while a file that the state does not record is not served.",
     "crash_points histories", "every file-system and database operation of a commit as crash point, after any history of uploads, overwrites and deletes of files and keys",
     "tests simulate one or two hand-picked failures; the guarantee is about every operation boundary inside a commit including renames, deletes and the database commit.",
     S + "keyfs.py " + S + "keyfs_sqlite_fs.py " + S + "filestore_fs.py " + S + "filestore.py",
     [("tmp-file rename protocol and crash recovery of the last change", S + "keyfs_sqlite_fs.py"), ("commit order of records, files and database", S + "keyfs_sqlite.py")],
     [], ["server directory after reopening", "file contents over HTTP"])

prop("C03", "Stored values round-trip exactly and reads are immutable snapshots",
     "Every value made of the supported types (none, booleans, integers in range, floats, text, bytes, and nested tuples, lists, sets, frozensets and dicts of them) comes back equal and with the same types from the serialisation used for storage and replication. Truncated serialised input is always rejected with an error, and no serialised input makes it hang. A value obtained from a read cannot be used to change stored state, and changing a value after it was stored and committed does not alter what was stored.",
     "inputs", "all nested values of supported types; all byte strings as serialised input; all mutations of read and stored objects",
     "tests round-trip a handful of literals; numeric limits, deep nesting, set of tuples, text with surrogates/controls and aliasing between cache and caller need generated structures.",
     S + "fileutil.py " + S + "readonly.py " + S + "keyfs.py",
     [("dump/load of the storage format", S + "fileutil.py"), ("read-only wrappers and deep copies", S + "readonly.py")], [], ["loads/dumps", "transaction get/set"])

prop("C04", "A private index shows exactly what its upload and delete history says",
     "After any sequence of user, index, project, upload, metadata registration, documentation, test-result and delete requests, every view of a private index (user and index listings, project and version JSON, simple pages, file links, file contents) shows exactly the projects, versions, metadata, files, hashes and attachments that the accepted requests leave, each under its normalised project name. Deleting a file, version, project, index or user removes exactly that and everything below it, leaves everything else unchanged, and the deleted files are no longer served.",
     "histories inputs", "all sequences of accepted and rejected requests on several users, indexes, projects, versions and file types",
     "tests check single steps or short fixed sequences; stale project sets, links left behind after deletes, and metadata of neighbouring versions depend on the history.",
     S + "model.py " + S + "views.py " + S + "filestore.py " + S + "keyfs.py",
     [("version, link and project bookkeeping of private stages", S + "model.py"), ("request handlers", S + "views.py")], [], ["HTTP responses"])

prop("C05", "Release files on a non-volatile index are immutable",
     "On a non-volatile index, once a release file has been accepted under a filename, no request by anyone (re-upload, push, documentation or metadata upload, delete of file, version or project) makes that file disappear, changes its content or hash, or removes its version; conflicting requests are rejected and identical re-uploads leave the file as it is; only an explicitly forced delete is exempt. On a volatile index the same requests replace or delete, and the replacement is what is served.",
     "histories inputs", "all request sequences including volatility changes, identical and different re-uploads under equivalent names, pushes between indexes and deletes",
     "tests cover one re-upload of one file; alternative request paths (push, doczip, equivalent project spelling, version delete, index reconfiguration) combine freely.",
     S + "model.py " + S + "views.py",
     [("non-volatile conflict detection", S + "model.py"), ("delete and push handlers", S + "views.py")], [], ["HTTP responses and served files"])

prop("C06", "Inherited indexes merge in resolution order and each file shows once",
     "For any graph of index bases (chains, diamonds, cycles, deleted bases), looking up a project on an index yields each file name at most once, taken from the first index in the breadth-first resolution order (mirrors last) that has it, and the set of projects and versions is the union over the reachable indexes. Lookups terminate and every index is consulted at most once, whatever the shape of the graph.",
     "configurations histories", "all base graphs over several private indexes and contents spread over them",
     "tests use two-level chains and one simple cycle; duplicate consultation, order and shadowing errors need diamonds, cycles and missing bases with overlapping content.",
     S + "model.py " + S + "views.py",
     [("stage resolution order and merging of links", S + "model.py")], [], ["simple pages and version JSON of the inheriting index"])

prop("C07", "Private projects are never mixed with mirror releases unless whitelisted",
     "If a project has an entry on a private index, an index that inherits from both it and a mirror shows no releases of that project from the mirror unless the project (by any equivalent spelling) or every project is in the effective mirror whitelist. With union inheritance a listing on any private index in the resolution order counts, with intersection only one on the queried index itself, and projects that no private index knows are always taken from the mirror.",
     "configurations inputs", "all combinations of base graphs, whitelists, inheritance modes, project name spellings and contents of private and mirror indexes",
     "tests check single whitelisted names on one- or two-level inheritance; the protection must hold for every configuration, because one wrong combination is a dependency-confusion hole.",
     S + "model.py " + S + "mirror.py",
     [("mirror whitelist evaluation", S + "model.py")], [], ["simple pages, version listings and blocked-mirror information"])

prop("C08", "Requests are allowed exactly as the access rules say",
     "For every request, the outcome (allowed, or rejected with 401/403) is exactly what ownership, the index's upload and test-result ACLs including the special anonymous and authenticated entries, the root user and the modification restriction option prescribe, for any user or anonymous caller. A rejected request changes nothing.",
     "configurations inputs", "the full matrix of callers, targets, operations, ACL settings and restriction options",
     "tests check selected cells of the matrix; a hole can sit in any combination of caller, operation, index setting and server option.",
     S + "view_auth.py " + S + "views.py " + S + "model.py " + S + "auth.py",
     [("ACL construction per context", S + "view_auth.py"), ("permission predicates on views", S + "views.py")], [], ["HTTP status codes and state afterwards"])

prop("C09", "Only valid credentials authenticate and secrets never leak",
     "A login token or basic-auth password authenticates as a user exactly when it was issued for that user by this server and has not expired (token) or equals the current password; any altered, truncated, expired, foreign or other user's credential is treated as unauthenticated or rejected. Changing a password or deleting a user takes effect for logins immediately, and no response to any request reveals a password, password hash or salt.",
     "inputs histories", "all passwords (any text), all tamperings of tokens, all histories of create, modify, delete and login",
     "tests use a few literal passwords and one expiry; acceptance must be decided for every altered credential and leak-freedom for every response.",
     S + "auth.py " + S + "view_auth.py " + S + "auth_devpi.py " + S + "auth_basic.py " + S + "model.py",
     [("signed tokens with expiry", S + "auth.py"), ("hashing and verification", S + "auth.py")], [], ["HTTP responses"])

prop("C10", "A replica converges to the primary's exact history",
     "A replica that processes the primary's change stream, fetched one by one, in batches or as a stream, with any chunking, interruption, restart or repeated delivery, ends with the same values at every serial and the same files as the primary, and never applies a change twice, out of order or partially. The replica never serves a private file whose content does not match the recorded hash.",
     "histories fault_sequences schedules", "all primary histories (including deletes and overwrites), all splits of the change stream into responses, all transport faults",
     "tests replay fixed histories over a perfect transport; convergence under batching, truncation, retries and deletes must hold for every history and fault sequence.",
     S + "replica.py " + S + "keyfs.py " + S + "filestore.py",
     [("changelog endpoints and replica thread", S + "replica.py"), ("import of changes", S + "keyfs.py")], [], ["replica database and files", "replica HTTP responses"])

prop("C11", "Export followed by import reproduces the server's content",
     "Exporting any server state and importing it into an empty server yields the same users (with working passwords), index configurations, projects, versions, metadata, files with identical content and hashes, documentation, test results and upload logs. This holds for every reachable state, including unusual but accepted names, versions, index base graphs and deleted or overwritten content.",
     "histories configurations", "all states reachable through accepted requests",
     "tests export and import a few constructed states; name/version forms, base graphs and combinations of docs, tox results and overwrites are unbounded.",
     S + "importexport.py " + S + "model.py " + S + "fileutil.py",
     [("exporter/importer of users, stages and files", S + "importexport.py")], [], ["HTTP views of both servers"])

prop("C12", "A mirror shows what upstream has, as fresh as its expiry rules allow",
     "With an expired or refreshed cache and a reachable upstream, a mirror's project page shows exactly the release files upstream currently lists for that project with their hashes, requires-python and yank markers, whatever mix of unchanged (304), changed, removed and failing answers preceded it. Within the expiry time the last good answer is served without contacting upstream, and when upstream fails the last good answer keeps being served instead of an error or an empty page; a project upstream does not have is reported as missing, and one never seen before may be reported missing until the expiry time after such an answer or failure.",
     "histories fault_sequences", "all sequences of upstream changes, upstream failures, expiries, refreshes and lookups, HTML and JSON upstream formats",
     "tests check single transitions of the cache; wrong etag, serial or expiry bookkeeping shows only in particular sequences of upstream answers.",
     S + "mirror.py",
     [("retrieve times, etags and cached link lists", S + "mirror.py")], [], ["simple pages of a mirror index", "requests seen by the upstream"])

prop("C13", "Fetched files are served only when complete and matching their checksum",
     "A file fetched from an upstream mirror is stored and marked as available only if its size equals the announced content length and its content matches the advertised hash; whatever upstream sends (truncated, extended, corrupted, wrong length, error status, broken connection), a later request never gets wrong bytes as a successful response. After upstream recovers, the correct file is served and cached.",
     "fault_sequences inputs", "all contents, chunkings and fault kinds at any position, in any order of requests",
     "tests check one truncated and one wrong-hash download; the guarantee is over every fault position and the requests that follow it.",
     S + "mirror.py " + S + "views.py " + S + "filestore.py " + S + "keyfs.py",
     [("streaming download with size and hash checks", S + "mirror.py"), ("file entry writing", S + "filestore.py")], [], ["file downloads over HTTP, files on disk"])

prop("C14", "Push copies a release completely and exactly, or not at all",
     "Pushing a release from one index to another makes the target show the same metadata, files, hashes, documentation and test results as the source had (honouring the no-docs and only-docs options) and leaves the source untouched. A rejected push leaves the target unchanged.",
     "histories inputs", "all source and target contents, volatility settings, options and repetition of pushes",
     "tests push one or two fixed releases; fidelity must hold for every combination of files, docs, results and prior target content, and atomicity for every conflict position.",
     S + "views.py " + S + "model.py",
     [("push request handler", S + "views.py")], [], ["HTTP views of source and target before and after"])

prop("C15", "Name normalisation and version ordering are consistent everywhere",
     "Project name normalisation is idempotent, identifies exactly the names that differ only in case and runs of '-', '_' and '.', and a project is found under every equivalent spelling in every URL. Version comparison is a total order that agrees with the packaging specification on standard versions, sorting is a permutation, and the reported latest (stable) version is a maximum (of the stable ones).",
     "inputs", "all project names and all sets of versions, including non-standard ones",
     "tests use small literal tables; ordering laws quantify over triples of arbitrary versions.",
     C + "validation.py " + C + "metadata.py " + S + "model.py",
     [("normalize_name", C + "validation.py"), ("version parsing and sorting", C + "metadata.py")], [], ["function results and HTTP lookups"])

prop("C16", "File names are split into the right project, version and type",
     "For every valid sdist, wheel, egg or documentation archive file name (except where a project name itself ends like a version or platform, which makes the name ambiguous), parsing yields exactly the project, version and file type it was built from, and links to archives are classified by their real extension. Formatting the parsed parts reproduces an equal identity, and unsupported names are reported as having no version rather than causing an error.",
     "inputs", "all file names composed of valid names (with digits and dashes), versions and archive types",
     "tests use a table of known names; ambiguity between dashes in names and versions needs composed names.",
     C + "metadata.py " + C + "archive.py " + C + "validation.py",
     [("splitbasename, splitext_archive, get_pyversion_filetype", C + "metadata.py")], [], ["function results"])

prop("C17", "URL manipulation is lossless and consistent",
     "Joining, adding path segments, taking parents, relative paths, replacing parts and stripping fragments of any URL obey their algebraic laws: adding then taking the base name returns the segment, resolving a computed relative path returns the original target, unchanged parts stay byte-identical, and hash fragments are parsed to exactly the hash type and value they carry. No operation on a syntactically valid URL raises an unexpected error.",
     "inputs", "all URLs with any path, query and fragment",
     "tests use example URLs; relative paths and fragment parsing break on particular shapes only.",
     C + "url.py",
     [("URL class", C + "url.py")], [], ["function results"])

prop("C18", "Archives round-trip and extraction stays inside the target directory",
     "Creating an archive from any tree of files and reading or extracting it yields the same names and contents, for zip and tar archives. Extracting any archive, however crafted (absolute paths, parent references, links, odd names), never creates or changes anything outside the target directory.",
     "inputs", "all file trees and all crafted archives",
     "tests try one or two malicious names; containment is a statement over every member name and combination.",
     C + "archive.py web/devpi_web/doczip.py",
     [("Archive extract/read", C + "archive.py")], [], ["files on disk around the extraction target"])

prop("C19", "Simple pages list each file once, identically in HTML and JSON, with live links",
     "For any index content, all forms of a simple page (HTML for browsers, HTML for installers, JSON) list the same files, those for installers in the same order, with the same names, hashes, requires-python and yank information, correctly escaped, and the project list pages agree likewise. Every link on a page of a private index, followed as a client resolves it, returns exactly the uploaded bytes whose hash the link announces.",
     "inputs histories", "all file names, metadata values and project names an index accepts or mirrors",
     "tests look at pages for plain names; escaping and URL quoting errors need special characters in names and metadata.",
     S + "views.py " + S + "model.py " + C + "viewhelp.py",
     [("simple page rendering", S + "views.py")], [], ["simple page responses and file downloads"])

prop("C20", "Change subscribers see every change exactly once and in order",
     "Every subscriber is called for every committed change of the keys it subscribed to, in serial order, with the values at that serial, exactly once per running server, and after a restart processing resumes at the first change not yet fully processed. A failing subscriber neither blocks nor reorders later changes, and waiting for a serial returns only once it was processed.",
     "histories schedules fault_sequences", "all histories of changes interleaved with restarts and failing subscribers",
     "tests use one or two notifications; lost, repeated or reordered events depend on restarts and failures between changes.",
     S + "keyfs.py " + S + "model.py",
     [("notifier thread and event serial file", S + "keyfs.py")], [], ["subscriber calls"])

prop("C21", "User and index settings change exactly as requested",
     "Creating, modifying (full or by add/remove/set/delete operations) and deleting users and indexes changes exactly the addressed settings to the requested values and nothing else, and reading them back returns them. Invalid settings (unknown bases, bad types, invalid names, wrong index type) are rejected with a client error and leave the configuration unchanged.",
     "inputs histories", "all sequences of configuration requests over all known keys and value forms",
     "tests check individual keys; the effect of list operations, defaults and rejected values over sequences needs a model.",
     S + "model.py " + S + "views.py " + S + "mirror.py",
     [("index config validation and modification", S + "model.py"), ("PATCH/PUT handlers", S + "views.py")], [], ["HTTP responses"])

prop("C22", "Rejected requests leave no trace and bad input is never a server error",
     "Any request, however malformed, that is answered with a client error leaves every stored value and file unchanged. No request built from arbitrary paths, methods, headers, form fields, file names or JSON bodies is answered with an internal server error.",
     "inputs histories", "all requests over the server's routes with arbitrary parameters against any state",
     "tests send well-formed requests and a few known bad ones; only generated malformed requests reach the unvalidated paths.",
     S + "views.py " + S + "model.py " + S + "view_auth.py",
     [("transaction tween and error responses", S + "views.py")], [], ["HTTP status codes and database content"])

prop("C23", "Names from requests never reach outside the server directory",
     "Whatever user, index, project, version or file names a request, an upstream page or a replication stream carries, the server creates, changes, deletes and serves files only inside its own storage area, and two different accepted names never share storage.",
     "inputs", "all names that requests and upstream pages can carry, including dots, separators, escapes and encodings",
     "tests check few hostile names on single routes; containment is a statement over every name on every route.",
     S + "model.py " + S + "filestore.py " + S + "filestore_fs.py " + C + "validation.py " + S + "keyfs_types.py",
     [("name validation", C + "validation.py"), ("path construction", S + "filestore.py")], [], ["files around the server directory"])

prop("C24", "The web search index reflects the current content of the indexes",
     "After any history of uploads, metadata changes and deletions, once indexing has caught up, searching finds exactly the existing projects by name and metadata with their current values, and deleted projects, indexes and users no longer appear. Rebuilding the search index from scratch gives the same results.",
     "histories", "all histories of uploads, changes and deletes with indexing at any point",
     "tests index a few projects once; stale documents after deletes, renames and re-creation depend on the history.",
     "web/devpi_web/whoosh_index.py web/devpi_web/indexing.py web/devpi_web/main.py",
     [("project indexing and deletion", "web/devpi_web/whoosh_index.py")], [], ["search results"])

prop("C25", "Uploaded documentation is served exactly as uploaded and goes when deleted",
     "For any uploaded documentation archive, every file in it is served under its documentation URL with its exact content, with packed and unpacked storage giving the same answers; a re-uploaded archive replaces the old pages completely. After deleting the documentation, version or project, its pages are gone, and documentation of other projects and versions is untouched.",
     "histories inputs configurations", "all archives, re-uploads and deletes over several projects and versions, both storage modes",
     "tests upload one or two archives; stale unpacked files and mixed-up versions need histories.",
     "web/devpi_web/doczip.py web/devpi_web/views.py web/devpi_web/main.py",
     [("unpacking with hash file", "web/devpi_web/doczip.py")], [], ["documentation pages over HTTP"])

prop("C26", "Concurrent requests have the effect of some one-at-a-time order",
     "For any set of requests processed concurrently by several threads, the responses and the final state are those of processing the accepted ones one after another in some order: no update is lost, of conflicting uploads to a non-volatile index exactly one wins, serial numbers are unique and consecutive, and concurrent readers only see states between complete changes.",
     "schedules histories", "all interleavings of several client threads with conflicting and independent requests",
     "tests are single-threaded apart from one or two locking tests; lost updates need overlapping requests.",
     S + "keyfs.py " + S + "keyfs_sqlite.py " + S + "views.py",
     [("write lock around transactions", S + "keyfs.py")], [], ["responses and final state"])

prop("C27", "The consistency checker reports exactly the damaged files",
     "Running the file consistency checker on a server directory reports every recorded release file that is missing or whose content does not match its recorded hash, reports nothing else, and does not change anything in the server directory; on an undamaged directory it succeeds.",
     "fault_sequences histories", "all server contents and all sets of deleted, truncated or altered files",
     "tests check one missing and one altered file.",
     S + "fsck.py " + S + "filestore.py",
     [("fsck over file entries", S + "fsck.py")], [], ["checker output and exit code"])

prop("C28", "The client resolves index and project URLs and stored logins correctly",
     "For any server location (with or without sub-path, port, credentials) and any sequence of use, login and logoff, the client derives exactly the documented index, simple, project and user URLs, sends stored credentials only to the server they were stored for, and reloading the saved configuration gives the same settings.",
     "inputs histories", "all server URLs, index names, users and sequences of client commands",
     "tests use a few URLs; prefix matching of stored credentials between neighbouring servers and paths is only decided by generated URLs.",
     "client/devpi/use.py client/devpi/main.py " + C + "url.py",
     [("current-index state", "client/devpi/use.py")], [], ["derived URLs and stored configuration"])

prop("C29", "The client selects exactly the archives and versions it is asked for",
     "Uploading from directories selects exactly the archives of supported types found (only the newest version of each project when requested), associates documentation with its project and version, and removing or listing by requirement specifier acts on exactly the matching versions. Indexing, installing and testing use the link of exactly the requested release.",
     "inputs", "all sets of archive files and all requirement specifiers",
     "tests use small fixed directories and specs; grouping, ordering and specifier matching quantify over sets of names and versions.",
     "client/devpi/upload.py client/devpi/list_remove.py client/devpi/test.py",
     [("archive collection and filtering", "client/devpi/upload.py"), ("requirement matching", "client/devpi/list_remove.py")], [], ["selected files and issued requests"])

prop("C30", "A replica behaves towards clients like its primary",
     "Every modifying request sent to a replica has the same effect and response as if it were sent to the primary, and a read on the replica after the response to a write shows that write. Reads on the replica that has caught up return the same content as on the primary, apart from host names in links.",
     "histories schedules", "all request sequences split between replica and primary",
     "tests proxy single requests with mocked answers; equivalence must hold for whole histories.",
     S + "replica.py " + S + "views.py",
     [("write proxying and waiting for serials", S + "replica.py")], [], ["HTTP responses of replica and primary"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 3, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
