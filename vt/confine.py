"""Watch which files the code under test touches (and refuse what is out of bounds)."""
import os
import sys

_state = {"guard": None}


class Guard:
    """write(path, event) and read(path) tell whether the access is in bounds"""

    def __init__(self, write, read):
        self.write = write
        self.read = read
        self.bad = []
        self.paths = set()

    def __enter__(self):
        install()
        _state["guard"] = self
        return self

    def __exit__(self, *a):
        _state["guard"] = None


_installed = []
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {"os.remove": 1, "os.rmdir": 1, "os.mkdir": 2, "os.chmod": 2, "os.chown": 3, "os.truncate": None, "os.utime": 3, "os.mkfifo": None, "os.mknod": None}
TWO = {"os.rename": (2, 3), "os.link": (2, 3), "os.symlink": (None, 2)}


def full(path, dir_fd=-1):
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        base = os.getcwd() if dir_fd is None or dir_fd == -1 else os.readlink("/proc/self/fd/%d" % dir_fd)
        path = os.path.join(base, path)
    head, tail = os.path.split(path)
    if tail in ("", ".", ".."):
        return os.path.realpath(path)
    # the last part itself is what is created, renamed or removed
    return os.path.join(os.path.realpath(head), tail)


def hook(event, args):
    g = _state["guard"]
    if g is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if isinstance(flags, int) and flags & WRITE:
            access(g, event, os.path.realpath(full(path)), True)
        elif os.path.isabs(os.fsdecode(path)):
            access(g, event, os.path.realpath(full(path)), False)
    elif event in ONE:
        i = ONE[event]
        if isinstance(args[0], int):
            return
        fd = args[i] if i is not None and len(args) > i else -1
        if event in ("os.remove", "os.rmdir"):
            fd = args[1]
        access(g, event, full(args[0], fd), True)
    elif event in TWO:
        a, b = TWO[event]
        if event != "os.symlink":
            access(g, event, full(args[0], args[a]), True)
        access(g, event, full(args[1], args[b]), True)


def access(g, event, path, write):
    if write:
        g.paths.add(path)
    ok = g.write(path, event) if write else g.read(path)
    if not ok:
        g.bad.append("%s %s" % (event, path))
        raise PermissionError(13, "out of bounds", path)


def install():
    if os.getpid() not in _installed:
        if not _installed:
            sys.addaudithook(hook)
        _installed.append(os.getpid())
