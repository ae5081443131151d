"""Import set-up shared by every check.

Must be imported before anything from devpi.  Puts the working tree of /repo
in front of sys.path and hypothesis (from the pre-installed tooling venv) at
the very end, so that the libraries devpi uses stay those of /opt/venv.
"""
import os
import sys
import logging
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _sub in ("common", "server", "client", "web", "postgresql"):
    _p = os.path.join(REPO, _sub)
    if _p not in sys.path:
        sys.path.insert(0, _p)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

try:
    import hypothesis  # noqa: F401
except ImportError:
    import importlib.util

    _TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

    class _ToolFinder:
        """Resolve only hypothesis and what it needs from the tooling venv."""
        allowed = {
            "hypothesis", "sortedcontainers", "_hypothesis_globals",
            "_hypothesis_ftz_detector", "_hypothesis_pytestplugin", "attr", "attrs"}

        @classmethod
        def find_spec(cls, name, path=None, target=None):
            if path is not None or name not in cls.allowed:
                return None
            from importlib.machinery import PathFinder
            return PathFinder.find_spec(name, [_TOOLS])

    sys.meta_path.append(_ToolFinder)
    import hypothesis  # noqa: F401

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

# cheap password hashing: the strength of argon2 is not what is being checked
import argon2.low_level as _ll  # noqa: E402

if not getattr(_ll, "_verif_patched", False):
    _orig_raw = _ll.hash_secret_raw

    def _cheap_raw(secret, salt, time_cost, memory_cost, parallelism, hash_len, type, version=_ll.ARGON2_VERSION):  # noqa: A002
        return _orig_raw(secret, salt, 1, 8, 1, hash_len, type, version)

    _ll.hash_secret_raw = _cheap_raw
    _ll._verif_patched = True
from passlib.handlers import argon2 as _pa  # noqa: E402,F401
from passlib.hash import argon2 as _A  # noqa: E402

_A.default_rounds = 1
_A.memory_cost = 8
_A.parallelism = 1

# no fsync in scratch databases (crash behaviour is injected, not provoked)
import sqlite3 as _sqlite3  # noqa: E402

if not getattr(_sqlite3, "_verif_patched", False):
    _orig_connect = _sqlite3.connect

    def _connect(*args, **kw):
        conn = _orig_connect(*args, **kw)
        if os.environ.get("VERIF_SQLITE_SYNC"):
            return conn
        try:
            conn.execute("PRAGMA synchronous=OFF")
        except _sqlite3.Error:
            pass
        return conn

    _sqlite3.connect = _connect
    _sqlite3._verif_patched = True

try:
    # quiet devpi's own logger set-up
    import devpi_server.log  # noqa: F401
except ImportError:
    pass
