"""A programmable package index ("pypi.org") on the loopback interface."""
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from html import escape
import hashlib
import json
import socket
import struct
import threading
import time

JSON_TYPE = "application/vnd.pypi.simple.v1+json"


class Reply:
    """what to answer: status, headers and body, possibly damaged"""

    def __init__(self, status=200, body=b"", ctype="text/html", headers=(), length="auto", cut=None, delay=0, drop=False):
        self.status = status
        self.body = body
        self.ctype = ctype
        self.headers = list(headers)
        self.length = length      # "auto", None (close delimited), "chunked" or a number
        self.cut = cut            # only send that many bytes of the body
        self.delay = delay
        self.drop = drop          # close the connection without an answer


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def setup(self):
        super().setup()
        self.connection.settimeout(20)

    def do_HEAD(self):
        self.do_GET()

    def do_GET(self):
        up = self.server.upstream
        with up.lock:
            up.requests.append((self.command, self.path, dict((k.lower(), v) for k, v in self.headers.items())))
            try:
                reply = up.answer(self.path, self.headers)
            except Exception as e:   # reported by the check
                up.errors.append(repr(e))
                reply = Reply(500)
        if reply is None:
            reply = Reply(404, b"not found", "text/plain")
        if reply.delay or up.delay:
            time.sleep(reply.delay or up.delay)
        if reply.drop:
            self.close_connection = True
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.connection.close()
            return
        try:
            self.send_response(reply.status)
            body = reply.body
            if reply.ctype is not None and reply.status != 304:
                self.send_header("Content-Type", reply.ctype)
            for k, v in reply.headers:
                self.send_header(k, v)
            if reply.length == "auto":
                self.send_header("Content-Length", str(len(body)))
            elif reply.length == "chunked":
                self.send_header("Transfer-Encoding", "chunked")
            elif reply.length is not None:
                self.send_header("Content-Length", str(reply.length))
            if reply.length is None or reply.cut is not None or isinstance(reply.length, int):
                self.send_header("Connection", "close")
                self.close_connection = True
            self.end_headers()
            if self.command == "HEAD" or reply.status == 304:
                return
            sent = body if reply.cut is None else body[:reply.cut]
            if reply.length == "chunked":
                for i in range(0, len(sent), 4096):
                    part = sent[i:i + 4096]
                    self.wfile.write(b"%x\r\n%s\r\n" % (len(part), part))
                if reply.cut is None:
                    self.wfile.write(b"0\r\n\r\n")
            else:
                self.wfile.write(sent)
            self.wfile.flush()
        except OSError:
            self.close_connection = True


class TCPServer(ThreadingHTTPServer):
    daemon_threads = True
    allow_reuse_address = True
    request_queue_size = 64

    def handle_error(self, request, client_address):
        pass


class Upstream:
    """base: answers come from the ``answer`` method"""

    def __init__(self):
        self.lock = threading.RLock()
        self.requests = []
        self.errors = []
        self.delay = 0            # before every answer
        self.httpd = TCPServer(("127.0.0.1", 0), Handler)
        self.httpd.upstream = self
        self.port = self.httpd.server_address[1]
        self.url = "http://127.0.0.1:%d" % self.port
        self.thread = threading.Thread(target=self.httpd.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True)
        self.thread.start()

    def answer(self, path, headers):
        return None

    def take(self):
        """the requests since the last call"""
        with self.lock:
            r, self.requests = self.requests, []
            return r

    def close(self):
        self.httpd.shutdown()
        self.httpd.server_close()


class File:
    def __init__(self, name, content, hash="sha256", requires_python=None, yanked=None):
        self.name = name
        self.content = content
        self.hash = hash
        self.requires_python = requires_python
        self.yanked = yanked      # None, True or a reason

    @property
    def hash_spec(self):
        if not self.hash:
            return ""
        return "%s=%s" % (self.hash, hashlib.new(self.hash, self.content).hexdigest())


class Pypi(Upstream):
    """a simple index whose state can be changed at any time"""

    def __init__(self):
        super().__init__()
        self.projects = {}        # title -> list of File or None (404)
        self.fmt = "html"         # or "json"
        self.use_etag = True
        self.serial = None
        self.page_fault = None    # Reply or None, for all project pages
        self.list_fault = None
        self.file_fault = {}      # name -> callable(File) -> Reply
        self.href = "relative"    # or "absolute"
        self.json_ctype = JSON_TYPE
        self.noise = []

    @staticmethod
    def norm(name):
        import re
        return re.sub(r"[-_.]+", "-", name).lower()

    def find(self, name):
        for title, files in self.projects.items():
            if self.norm(title) == self.norm(name):
                return title, files
        return None, None

    def page(self, title, files):
        base = self.url if self.href == "absolute" else "../.."
        if self.fmt == "json":
            out = []
            for f in files:
                d = dict(filename=f.name, url="%s/packages/%s/%s" % (base, self.norm(title), quote_name(f.name)), hashes={})
                if f.hash:
                    d["hashes"] = {f.hash: f.hash_spec.split("=")[1]}
                if f.requires_python is not None:
                    d["requires-python"] = f.requires_python
                if f.yanked is not None:
                    d["yanked"] = f.yanked
                out.append(d)
            return json.dumps(dict(meta={"api-version": "1.0"}, name=self.norm(title), files=out)).encode(), self.json_ctype
        out = ["<!DOCTYPE html><html><head><title>Links for %s</title></head><body>" % escape(title)]
        for f in files:
            at = 'href="%s/packages/%s/%s%s"' % (base, self.norm(title), quote_name(f.name), "#" + f.hash_spec if f.hash else "")
            if f.requires_python is not None:
                at += ' data-requires-python="%s"' % escape(f.requires_python)
            if f.yanked is not None:
                at += ' data-yanked="%s"' % ("" if f.yanked is True else escape(f.yanked))
            out.append("<a %s>%s</a><br/>" % (at, escape(f.name)))
        out += self.noise
        out.append("</body></html>")
        return "\n".join(out).encode(), "text/html"

    def with_etag(self, body, ctype, headers, extra=()):
        hs = list(extra)
        if self.use_etag:
            etag = '"%s"' % hashlib.md5(body + ctype.encode()).hexdigest()
            if headers.get("If-None-Match") == etag:
                return Reply(304, b"", headers=[("ETag", etag)] + hs)
            hs.append(("ETag", etag))
        return Reply(200, body, ctype, headers=hs)

    def answer(self, path, headers):
        from urllib.parse import unquote
        path = path.partition("?")[0]
        if path in ("/simple/", "/simple"):
            if self.list_fault is not None:
                return self.list_fault
            titles = [t for t, f in self.projects.items() if f is not None]
            if self.fmt == "json":
                return self.with_etag(json.dumps(dict(meta={"api-version": "1.0"}, projects=[dict(name=t) for t in titles])).encode(), self.json_ctype, headers)
            return self.with_etag(("<html><body>%s</body></html>" % "".join('<a href="/simple/%s/">%s</a>' % (self.norm(t), t) for t in titles)).encode(), "text/html", headers)
        if path.startswith("/simple/"):
            if self.page_fault is not None:
                return self.page_fault
            title, files = self.find(unquote(path[8:].strip("/")))
            if files is None:
                return None
            extra = []
            if self.serial is not None:
                extra.append(("X-PyPI-Last-Serial", str(self.serial)))
            body, ctype = self.page(title, files)
            return self.with_etag(body, ctype, headers, extra)
        if path.startswith("/packages/"):
            _, _, proj, name = path.split("/", 3)
            name = unquote(name)
            title, files = self.find(proj)
            for f in files or []:
                if f.name == name:
                    fault = self.file_fault.get(name)
                    if fault is not None:
                        return fault(f)
                    return Reply(200, f.content, "application/octet-stream", headers=[("Last-Modified", "Thu, 25 Nov 2010 20:00:27 GMT")])
        return None


def quote_name(name):
    from urllib.parse import quote
    return quote(name, safe="!+~")
