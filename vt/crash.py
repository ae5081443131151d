"""Process death at the n-th write-side system call below a directory.

The code under test runs in a forked child. ``crashshim.c`` (LD_PRELOADed, see
``preload``) ends it right before the chosen call, or in the middle of it for
writes: no handler runs, the directory is what a killed process leaves. Calls
that SQLite makes are counted like those of Python.
"""
import ctypes
import hashlib
import os
import subprocess
import sys

EXIT = 77
HERE = os.path.dirname(os.path.abspath(__file__))


def build():
    src = os.path.join(HERE, "crashshim.c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    cache = os.path.join(os.path.dirname(HERE), ".cache")
    os.makedirs(cache, exist_ok=True)
    lib = os.path.join(cache, "crashshim-%s.so" % h)
    if not os.path.exists(lib):
        tmp = "%s.%d" % (lib, os.getpid())
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, lib)
    return lib


def preload():
    """re-execute this process with the shim loaded"""
    lib = build()
    if os.environ.get("LD_PRELOAD") != lib:
        os.environ["LD_PRELOAD"] = lib
        os.execve(sys.executable, [sys.executable, "-m", "vt.run", *sys.argv[1:]], os.environ)


class Injector:
    def __init__(self):
        self._lib = None

    @property
    def lib(self):
        if self._lib is None:
            self._lib = ctypes.CDLL(build())
            self._lib.inj_trace.restype = ctypes.c_char_p
        return self._lib

    def arm(self, root, target=None):
        self.lib.inj_arm(os.fsencode(os.path.realpath(root)), target or 0)

    def disarm(self):
        self.lib.inj_disarm()

    @property
    def count(self):
        return self.lib.inj_count()

    @property
    def trace(self):
        return [self.lib.inj_trace(i).decode("utf-8", "replace") for i in range(self.count)]


INJ = Injector()
