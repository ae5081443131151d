"""A primary behind a real HTTP front with faults, and a replica driven step by step."""
from vt import boot  # noqa: F401
import io
import sys
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import unquote_to_bytes
from vt.core import HarnessError
from vt.server import Server


class Plan:
    """what happens to one response on its way

    status      answer with this status instead of asking the primary
    drop        "before": close without asking, "after": ask, then close
    cut         send only this fraction (0..1) of the body, then close
    silent      a cut body looks complete (no length, not chunked)
    chunk       size of the chunks the body is sent in
    corrupt     flip one byte at this fraction of the body
    body        function replacing the body
    """

    def __init__(self, status=None, drop=None, cut=None, silent=False, chunk=None, corrupt=None, body=None):
        self.status = status
        self.drop = drop
        self.cut = cut
        self.silent = silent
        self.chunk = chunk
        self.corrupt = corrupt
        self.body = body


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    wbufsize = -1

    def log_message(self, *a):
        pass

    def handle_any(self):
        front = self.server.front
        length = int(self.headers.get("Content-Length") or 0)
        body = self.rfile.read(length)
        front.requests.append((self.command, self.path))
        plan = front.plan(self.command, self.path, self.headers)
        if plan.drop == "before":
            self.close_connection = True
            return
        if plan.status:
            self.send_response(plan.status)
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        status, headers, data = front.call(self.command, self.path, self.headers, body)
        if plan.drop == "after":
            self.close_connection = True
            return
        if plan.body is not None and status.startswith("200"):
            data = plan.body(data)
        if plan.corrupt is not None and data:
            i = min(int(len(data) * plan.corrupt), len(data) - 1)
            data = data[:i] + bytes([data[i] ^ 0x55]) + data[i + 1:]
        has_length = any(k.lower() == "content-length" for k, v in headers)
        full = len(data)
        send = data
        if plan.cut is not None and data:
            send = data[:min(int(len(data) * plan.cut), len(data) - 1)]
            self.close_connection = True
        self.send_response_only(int(status.split()[0]), status.partition(" ")[2])
        for k, v in headers:
            if k.lower() not in ("content-length", "connection", "transfer-encoding"):
                self.send_header(k, v)
        nobody = self.command == "HEAD" or status[:3] in ("204", "304")
        chunked = False
        if plan.cut is not None and plan.silent:
            self.send_header("Connection", "close")
            self.close_connection = True
        elif not has_length and not nobody:
            chunked = True
            self.send_header("Transfer-Encoding", "chunked")
        elif plan.body is not None or not nobody:
            self.send_header("Content-Length", str(full))
        else:
            self.send_header("Content-Length", dict((k.lower(), v) for k, v in headers).get("content-length", "0"))
        self.end_headers()
        if nobody:
            return
        size = plan.chunk or front.chunk or 65536
        for i in range(0, len(send), size):
            part = send[i:i + size]
            self.wfile.write((b"%x\r\n%s\r\n" % (len(part), part)) if chunked else part)
        if chunked and len(send) == full:
            self.wfile.write(b"0\r\n\r\n")
        self.wfile.flush()

    do_GET = do_HEAD = do_POST = do_PUT = do_PATCH = do_DELETE = handle_any


class TCPServer(ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 128

    def handle_error(self, request, client_address):
        e = sys.exc_info()[1]
        if not isinstance(e, (ConnectionError, BrokenPipeError, TimeoutError)):
            self.front.errors.append(e)


class Front:
    """the HTTP front of the primary; one per worker process"""

    def __init__(self):
        self.http = TCPServer(("127.0.0.1", 0), Handler)
        self.http.front = self
        self.url = "http://127.0.0.1:%d" % self.http.server_port
        self.reset(None)
        t = threading.Thread(target=self.http.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True)
        t.start()

    def reset(self, server):
        self.server = server
        self.chunk = None
        self.planner = None
        self.requests = []
        self.errors = []

    def plan(self, method, path, headers):
        if self.server is None:
            return Plan(drop="before")
        p = self.planner(method, path, headers) if self.planner else None
        return p or Plan()

    def call(self, method, path, headers, body):
        server = self.server
        p, _, q = path.partition("?")
        env = {
            "REQUEST_METHOD": method, "SCRIPT_NAME": "", "PATH_INFO": unquote_to_bytes(p).decode("latin-1"), "QUERY_STRING": q,
            "SERVER_NAME": "127.0.0.1", "SERVER_PORT": str(self.http.server_port), "SERVER_PROTOCOL": "HTTP/1.1", "REMOTE_ADDR": "127.0.0.1",
            "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(body), "wsgi.errors": sys.stderr,
            "wsgi.multithread": True, "wsgi.multiprocess": False, "wsgi.run_once": False}
        for k, v in headers.items():
            k2 = k.upper().replace("-", "_")
            if k2 in ("CONTENT_TYPE", "CONTENT_LENGTH"):
                env[k2] = v
            elif k2 not in ("CONNECTION", "TRANSFER_ENCODING"):
                k2 = "HTTP_" + k2
                env[k2] = env[k2] + "," + v if k2 in env else v
        out = {}

        def start_response(status, hdrs, exc_info=None):
            out["status"], out["headers"] = status, hdrs
            return lambda b: None
        try:
            it = server._app(env, start_response)
            try:
                data = b"".join(it)
            finally:
                if hasattr(it, "close"):
                    it.close()
        except Exception as e:  # what a WSGI server does
            self.errors.append(e)
            return "500 Internal Server Error", [("Content-Length", "0")], b""
        return out["status"], out["headers"], data


class Primary(Server):
    """a server reachable through a Front"""

    def __init__(self, front, block=0.0, changes_size=None, **kw):
        from devpi_server import replica
        cls = replica.PrimaryChangelogRequest
        cls.MAX_REPLICA_BLOCK_TIME = block
        cls.MAX_REPLICA_CHANGES_SIZE = replica.MAX_REPLICA_CHANGES_SIZE if changes_size is None else changes_size
        super().__init__(opts=["--role", "primary"], init_opts=["--role", "primary"], **kw)
        front.reset(self)


class NoSleep:
    """stands in for a thread whose loop is driven from outside"""

    def __init__(self):
        self.slept = []

    def sleep(self, secs):
        self.slept.append(secs)

    def exit_if_shutdown(self):
        pass


def replica_opts(front):
    return ["--role", "replica", "--primary-url", front.url]


class Replica(Server):
    """a replica whose threads run only when told to

    (the thread that queues the initial files runs by itself, as it waits
    for the others in the middle of its work)
    """

    def __init__(self, front, opts=(), threads=False, **kw):
        self.front = front
        start = ("all",) if threads else ()
        super().__init__(opts=[*replica_opts(front), *opts], init_opts=replica_opts(front), start=start, base="http://replica.example", **kw)
        rt = self.rt = self.xom.replica_thread
        sd = self.sd = rt.shared_data
        self.threads = threads
        if not threads:
            from devpi_server.log import threadlog
            rt.thread = NoSleep()
            rt.log = threadlog
            sd.QUEUE_TIMEOUT = 0.0
            for frt in rt.file_replication_threads:
                frt.thread = NoSleep()
            self.xom.thread_pool.start_one(self.xom.async_thread)
            self.xom.thread_pool.start_one(self.xom.keyfs.notifier)
            self.xom.thread_pool.start_one(rt.initial_queue_thread)
            end = time.time() + 20
            while not sd._replica_in_sync_cv._waiters:
                if time.time() > end:
                    raise HarnessError("the initial queue thread does not wait")
                time.sleep(0.001)

    def tick(self):
        """one round of fetching changes"""
        self.rt.tick()
        if self.rt.replica_in_sync_at is not None:
            self.settle_initial()

    def settle_initial(self):
        t = self.rt.initial_queue_thread.thread
        end = time.time() + 60
        while t.is_alive():
            self.file_tick()
            time.sleep(0.001)
            if time.time() > end:
                raise HarnessError("the initial queue thread does not end")

    def file_tick(self, retry=False):
        sd = self.sd
        if retry:
            sd.is_in_future = lambda ts: False
        try:
            self.rt.file_replication_threads[0].tick()
        finally:
            if retry:
                del sd.is_in_future

    @property
    def pending(self):
        return self.sd.queue.qsize()

    @property
    def errored(self):
        return self.sd.error_queue.qsize()

    def drain(self, retry=False, limit=400):
        n = 0
        while self.pending or (retry and self.errored):
            self.file_tick(retry=retry)
            n += 1
            if n > limit:
                return False
        return True
