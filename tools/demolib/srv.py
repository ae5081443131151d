"""A devpi-server in a scratch directory, driven over WSGI (for demonstrations)."""
import logging
import warnings
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import base64
import importlib.metadata
import io
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import atexit
tempfile.tempdir = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, tempfile.tempdir, ignore_errors=True)
SECRET = b"0123456789abcdefghijklmnopqrstuvwxyzVERIF"
_templates = {}


def plugins(web=False):
    """the plugins devpi registers by itself through its entry points"""
    res = []
    want = {"devpi-server"} | ({"devpi-web"} if web else set())
    for ep in importlib.metadata.entry_points(group="devpi_server"):
        if ep.dist.name.lower().replace("_", "-") in want:
            res.append((ep.name, ep.load()))
    return res


def make_pm(web=False, extra=()):
    from devpi_server.config import get_pluginmanager
    pm = get_pluginmanager(load_entrypoints=False)
    for name, plugin in plugins(web):
        if not pm.is_registered(plugin):
            pm.register(plugin, name)
    for plugin in extra:
        pm.register(plugin)
    return pm


def init_dir(path, storage=None, init_opts=(), web=False):
    from devpi_server.init import init
    args = ["devpi-init", "--serverdir", path, "--no-root-pypi", *init_opts]
    if storage:
        args += ["--storage", storage]
    so = sys.stdout
    try:
        sys.stdout = io.StringIO()
        rc = init(pluginmanager=make_pm(web=web), argv=args)
    finally:
        sys.stdout = so
    assert not rc, "devpi-init failed"
    secret = os.path.join(path, ".verif-secret")
    with open(secret, "wb") as f:
        f.write(SECRET)
    os.chmod(secret, 0o600)
    os.chmod(path, 0o700)


def fresh_dir(storage=None, init_opts=(), web=False):
    """a newly initialised server directory (copied from a per-process template)"""
    key = (storage, tuple(init_opts), web, os.getpid())
    if key not in _templates:
        d = tempfile.mkdtemp(prefix="tmpl")
        d = os.path.join(d, "s")
        os.mkdir(d)
        init_dir(d, storage, init_opts, web)
        _templates[key] = d
    base = tempfile.mkdtemp(prefix="srv")
    d = os.path.join(base, "s")
    shutil.copytree(_templates[key], d)
    os.chmod(d, 0o700)
    return d


class Response:
    def __init__(self, status, headers, body, exc=None):
        self.status_code = status
        self.headers = headers
        self.body = body
        self.exc = exc

    @property
    def text(self):
        return self.body.decode("utf-8", "replace")

    @property
    def json(self):
        return json.loads(self.body)

    def __repr__(self):
        return "<Response %s %s>" % (self.status_code, self.body[:300])


class Server:
    def __init__(self, path=None, storage=None, opts=(), init_opts=(), web=False, extra_plugins=(),
                 httpget=None, start=("async",), keep=False, app=True, base=None):
        from devpi_server.config import parseoptions
        from devpi_server.main import XOM
        self.storage = storage
        self.keep = keep
        self.own_path = path is None
        self.path = path if path is not None else fresh_dir(storage, init_opts, web)
        args = ["devpi-server", "--serverdir", self.path,
                "--secretfile", os.path.join(self.path, ".verif-secret")]
        if storage:
            args += ["--storage", storage]
        if web and not any("indexer-backend" in x for x in opts):
            args += ["--indexer-backend", "null"]
        args += list(opts)
        self.pm = make_pm(web=web, extra=extra_plugins)
        self.config = parseoptions(self.pm, args)
        self.config.init_nodeinfo()
        self.xom = XOM(self.config) if httpget is None else XOM(self.config, httpget=httpget)
        self.started = start
        if "all" in start:
            self.xom.thread_pool.start()
        else:
            if "async" in start:
                self.xom.thread_pool.start_one(self.xom.async_thread)
            if "notifier" in start:
                self.xom.thread_pool.start_one(self.xom.keyfs.notifier)
        self._app = self.xom.create_app() if app else None
        self.tokens = {}
        self.base = base or "http://localhost"

    @property
    def model(self):
        return self.xom.model

    @property
    def keyfs(self):
        return self.xom.keyfs

    def close(self):
        try:
            self.xom.keyfs.release_all_wait_tx()
        except Exception:
            pass
        try:
            self.xom.thread_pool.kill()
        except Exception:
            pass
        for name in ("_close_sessions",):
            fn = getattr(self.xom, name, None)
            if fn is not None:
                try:
                    fn()
                except Exception:
                    pass
        try:
            self.xom.keyfs.finalize()
        except Exception:
            pass
        if self.own_path and not self.keep:
            shutil.rmtree(os.path.dirname(self.path), ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- HTTP

    def request(self, method, path, body=b"", headers=None, user=None, environ=None):
        """path is the already quoted request target (may include ?query)"""
        from urllib.parse import unquote_to_bytes
        if path.startswith("http"):
            from urllib.parse import urlsplit
            u = urlsplit(path)
            path = u.path + ("?" + u.query if u.query else "")
        p, _, q = path.partition("?")
        host = self.base.split("://", 1)[1]
        env = {
            "REQUEST_METHOD": method,
            "SCRIPT_NAME": "",
            "PATH_INFO": unquote_to_bytes(p).decode("latin-1"),
            "QUERY_STRING": q,
            "SERVER_NAME": host.split(":")[0],
            "SERVER_PORT": host.split(":")[1] if ":" in host else "80",
            "HTTP_HOST": host,
            "SERVER_PROTOCOL": "HTTP/1.1",
            "REMOTE_ADDR": "127.0.0.1",
            "wsgi.version": (1, 0),
            "wsgi.url_scheme": "http",
            "wsgi.input": io.BytesIO(body),
            "wsgi.errors": sys.stderr,
            "wsgi.multithread": True,
            "wsgi.multiprocess": False,
            "wsgi.run_once": False,
            "CONTENT_LENGTH": str(len(body)),
        }
        hs = dict(headers or {})
        if user is not None and user in self.tokens:
            hs.setdefault("X-Devpi-Auth", self.authval(user, self.tokens[user]))
        for k, v in hs.items():
            k2 = k.upper().replace("-", "_")
            if k2 in ("CONTENT_TYPE", "CONTENT_LENGTH"):
                env[k2] = v
            else:
                env["HTTP_" + k2] = v
        env.update(environ or {})
        out = {}

        def start_response(status, hdrs, exc_info=None):
            out["status"] = int(status.split()[0])
            out["headers"] = hdrs
            return lambda b: out.setdefault("written", []).append(b)
        try:
            it = self._app(env, start_response)
            try:
                chunks = list(it)
            finally:
                if hasattr(it, "close"):
                    it.close()
        except Exception as e:
            return Response(500, CaseInsensitive([]), ("".join(traceback.format_exception(e))).encode(), exc=e)
        return Response(out["status"], CaseInsensitive(out["headers"]), b"".join(chunks))

    @staticmethod
    def authval(user, token):
        return base64.b64encode(("%s:%s" % (user, token)).encode()).decode()

    def get(self, path, accept="application/json", headers=None, user=None):
        h = dict(headers or {})
        if accept:
            h.setdefault("Accept", accept)
        return self.request("GET", path, headers=h, user=user)

    def send_json(self, method, path, data, user=None, headers=None):
        h = {"Accept": "application/json", "Content-Type": "application/json"}
        h.update(headers or {})
        return self.request(method, path, json.dumps(data).encode(), headers=h, user=user)

    def delete(self, path, user=None, headers=None):
        return self.request("DELETE", path, headers=dict({"Accept": "application/json"}, **(headers or {})), user=user)

    def post_form(self, path, fields, file=None, user=None, headers=None):
        """fields: list of (name, value); file: (fieldname, filename, content)"""
        boundary = "----verifboundary7MA4YWxkTrZu0gW"
        out = []
        for k, v in fields:
            out.append(b"--" + boundary.encode() + b"\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n" % k.encode())
            out.append(v.encode() if isinstance(v, str) else v)
            out.append(b"\r\n")
        if file is not None:
            out.append(b"--" + boundary.encode())
            out.append(b"\r\nContent-Disposition: form-data; name=\"%s\"; filename=\"%s\"\r\nContent-Type: application/octet-stream\r\n\r\n" % (
                file[0].encode(), file[1].encode()))
            out.append(file[2])
            out.append(b"\r\n")
        out.append(b"--" + boundary.encode() + b"--\r\n")
        h = {"Content-Type": "multipart/form-data; boundary=" + boundary, "Accept": "application/json"}
        h.update(headers or {})
        return self.request("POST", path, b"".join(out), headers=h, user=user)

    # -- conveniences

    def login(self, user, password=""):
        r = self.send_json("POST", "/+login", {"user": user, "password": password})
        if r.status_code == 200:
            self.tokens[user] = r.json["result"]["password"]
        return r

    def create_user(self, user, password="pw", **kw):
        r = self.send_json("PUT", "/" + user, dict(password=password, **kw))
        if r.status_code in (200, 201):
            self.login(user, password)
        return r

    def create_index(self, index, user=None, **kw):
        if user is None:
            user = index.split("/")[0]
        return self.send_json("PUT", "/" + index, kw, user=user)

    def upload(self, index, name, version, filename, content, user=None, action="file_upload", extra=()):
        fields = [(":action", action), ("name", name), ("version", version), *extra]
        return self.post_form("/%s/" % index, fields, file=("content", filename, content), user=user)

    def wait_events(self):
        serial = self.xom.keyfs.get_current_serial()
        return self.xom.keyfs.notifier.wait_event_serial(serial)

    @property
    def serial(self):
        return self.xom.keyfs.get_current_serial()


class CaseInsensitive(dict):
    def __init__(self, items):
        super().__init__()
        for k, v in items:
            self[k.lower()] = v

    def get(self, k, default=None):
        return super().get(k.lower(), default)

    def __getitem__(self, k):
        return super().__getitem__(k.lower())

    def __contains__(self, k):
        return super().__contains__(k.lower())
