"""The devpi client run in this process, with its HTTP traffic answered by handlers."""
from vt import boot  # noqa: F401
import base64
import contextlib
import io
import os
import shutil
import sys
import tempfile
import traceback
from urllib.parse import urlsplit

ENV = ["DEVPI_INDEX", "DEVPI_USER", "DEVPI_CLIENTDIR", "VIRTUAL_ENV", "WORKON_HOME", "PIP_CONFIG_FILE", "UV_CONFIG_FILE", "HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "NO_PROXY",
       "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "REQUESTS_CA_BUNDLE", "NETRC", "PIP_INDEX_URL"]
_home = {}


def home():
    """a home directory for everything the client touches, of this process alone, set before it is imported"""
    pid = os.getpid()
    if pid not in _home:
        if "devpi.use" in sys.modules:
            raise RuntimeError("devpi.use was imported too early")
        d = tempfile.mkdtemp(prefix="home")
        for n in ENV:
            os.environ.pop(n, None)
        os.environ["HOME"] = d
        _home[pid] = d
    return _home[pid]


class Request:
    def __init__(self, method, url, headers, body):
        self.method = method
        self.url = url
        self.headers = {k.lower(): (v.decode("latin-1") if isinstance(v, bytes) else v) for k, v in headers.items()}
        self.body = body
        u = urlsplit(url)
        self.origin = "%s://%s" % (u.scheme, u.netloc.rpartition("@")[2])
        self.path = u.path or "/"
        self.query = u.query

    @property
    def target(self):
        return self.path + ("?" + self.query if self.query else "")

    def auth(self, name="x-devpi-auth"):
        """(user, password) of the header, None without"""
        v = self.headers.get(name)
        if v is None:
            return None
        if name == "authorization":
            kind, _, v = v.partition(" ")
            if kind.lower() != "basic":
                return (kind, v)
        raw = base64.b64decode(v)
        try:
            raw = raw.decode("utf-8")
        except UnicodeDecodeError:
            raw = raw.decode("latin-1")
        user, _, pw = raw.partition(":")
        return user, pw


class Net:
    """answers all requests made through the requests library"""

    def __init__(self):
        self.hosts = {}       # origin -> callable(Request) -> (status, headers, body)
        self.log = []         # (Request, status)

    def take(self):
        r, self.log = self.log, []
        return r

    def send(self, adapter, request, **kw):
        import requests
        import urllib3
        body = request.body
        if body is None:
            body = b""
        elif hasattr(body, "read"):
            body = body.read()
        elif isinstance(body, str):
            body = body.encode()
        req = Request(request.method, request.url, request.headers, body)
        handler = self.hosts.get(req.origin)
        if handler is None:
            self.log.append((req, None))
            raise requests.exceptions.ConnectionError("no server at %s" % req.origin, request=request)
        status, headers, body = handler(req)
        self.log.append((req, status))
        raw = urllib3.HTTPResponse(body=io.BytesIO(body), headers=headers, status=status, reason={200: "OK", 404: "Not Found"}.get(status, "x"), preload_content=False)
        return adapter.build_response(request, raw)

    @contextlib.contextmanager
    def active(self):
        import requests.adapters
        old = requests.adapters.HTTPAdapter.send
        net = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return net.send(adapter, request)
        requests.adapters.HTTPAdapter.send = send
        try:
            yield self
        finally:
            requests.adapters.HTTPAdapter.send = old


class Client:
    def __init__(self, net):
        home()
        self.net = net
        self.dir = tempfile.mkdtemp(prefix="client")
        self.clientdir = os.path.join(self.dir, "c")
        self.cwd = os.path.join(self.dir, "w")
        os.mkdir(self.cwd)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, *args, env=None):
        """(exit code, output) of one command"""
        import devpi.main
        out = io.StringIO()
        argv = ["devpi", args[0], "--clientdir", self.clientdir, *args[1:]]
        old = os.getcwd()
        saved = {k: os.environ.get(k) for k in (env or {})}
        os.environ.update(env or {})
        os.chdir(self.cwd)
        try:
            with self.net.active(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                try:
                    rc = devpi.main.main(argv)
                except SystemExit as e:
                    rc = e.code
                except Exception as e:
                    # as the interpreter does
                    traceback.print_exc(file=out)
                    self.exc = e
                    rc = 1
        finally:
            os.chdir(old)
            for k, v in saved.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        return (rc if isinstance(rc, int) else (0 if not rc else 1)), out.getvalue()

    def files(self):
        res = {}
        for root, dirs, names in os.walk(self.clientdir):
            for n in names:
                p = os.path.join(root, n)
                with open(p) as f:
                    res[os.path.relpath(p, self.clientdir)] = f.read()
        return res


class Location:
    """a real server under a root URL, whose login tokens are only good there"""

    def __init__(self, net, server, root, basic=None):
        self.net = net
        self.server = server
        self.root = root                    # with slash at the end
        u = urlsplit(root)
        self.origin = "%s://%s" % (u.scheme, u.netloc)
        self.path = u.path
        self.basic = basic                  # (user, password) the web server in front wants
        self.tokens = {}                    # issued here: name -> (user, token of the server)
        self.count = 0

    def covers(self, req):
        return req.origin == self.origin and (req.path + "/").startswith(self.path)

    def __call__(self, req):
        if self.basic and req.auth("authorization") != self.basic:
            return 401, {"Content-Type": "text/html", "WWW-Authenticate": "Basic realm=x"}, b"basic auth"
        if not self.covers(req):
            return 404, {"Content-Type": "text/html"}, b"outside of the server"
        headers = {k: v for k, v in req.headers.items() if k not in ("x-devpi-auth", "authorization", "host", "accept-encoding", "content-length")}
        headers["X-Outside-Url"] = self.root.rstrip("/")
        auth = req.auth()
        if auth is not None:
            user, pw = auth
            if pw in self.tokens:
                pw = self.tokens[pw][1]
            headers["X-Devpi-Auth"] = base64.b64encode(("%s:%s" % (user, pw)).encode()).decode()
        path = "/" + req.target[len(self.path):].lstrip("/")
        r = self.server.request(req.method, path, req.body, headers=headers)
        body = r.body
        if path == "/+login" and r.status_code == 200:
            import json
            d = r.json
            self.count += 1
            name = "tok%d@%s" % (self.count, self.root)
            self.tokens[name] = (None, d["result"]["password"])
            d["result"]["password"] = name
            body = json.dumps(d).encode()
        out = {k: v for k, v in dict(r.headers).items() if k not in ("content-length",)}
        return r.status_code, out, body


def route(locations):
    """one handler for several locations of one origin (longest path first)"""
    def handler(req):
        for loc in sorted(locations, key=lambda x: -len(x.path)):
            if loc.covers(req):
                return loc(req)
        return 404, {"Content-Type": "text/html"}, b"nothing here"
    return handler
