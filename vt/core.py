"""Property runner: generated cases -> oracle -> shrunk replay file."""
import os
import sys
import json
import time
import hashlib
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for the current case.

    ``key`` identifies the specific failing input class/call site; it is what a
    known-findings entry is matched against.
    """

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class HarnessError(Exception):
    pass


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key=key)


def check_equal(got, want, what, key=None):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (what, got, want), key=key)


class Ctx:
    """Collects statistics for the running case."""

    def __init__(self, known=()):
        self.known = frozenset(known)
        self.labels = {}
        self.known_hits = {}
        self.nontrivial = False
        self.info = {}

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def mark(self, name=None):
        """this case is non-trivial (by the property's stated rule)"""
        self.nontrivial = True
        if name:
            self.label(name)

    def is_known(self, key):
        if key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return True
        return False


class Sub:
    """One generated-input search of a property."""

    def __init__(self, name, strategy, run, quick, thorough=None, shards=8, rule="", hang_is_violation=False, case_timeout=120):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.shards = shards
        self.rule = rule
        self.hang_is_violation = hang_is_violation
        self.case_timeout = case_timeout


class Exhaustive:
    """A finite enumeration of cases (split between shards)."""

    def __init__(self, name, cases, run, shards=4, rule="", case_timeout=120):
        self.name = name
        self.cases = cases   # callable(tier) -> iterable of cases
        self.run = run
        self.shards = shards
        self.rule = rule
        self.case_timeout = case_timeout
        self.hang_is_violation = False


def canonical(case):
    return json.dumps(case, sort_keys=True, default=repr, ensure_ascii=True)


def classify_exception(e):
    """Violation for errors escaping the code under test, else HarnessError."""
    frames = traceback.extract_tb(e.__traceback__)
    for fr in reversed(frames):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(REPO + "/"):
            return Violation("unexpected %s from %s:%s %s: %s" % (
                type(e).__name__, os.path.relpath(fn, REPO), fr.lineno, fr.name, str(e)[:300]))
        if fn.startswith(VERIF + "/"):
            break
    return HarnessError("%s\n%s" % (e, "".join(traceback.format_exception(e))))


class CaseTimeout(BaseException):
    pass
