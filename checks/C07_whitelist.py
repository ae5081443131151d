"""C07: private projects are never mixed with mirror releases unless whitelisted."""
from vt import boot  # noqa: F401
from vt import inherit
from vt.core import Sub

LEVEL = "exploration"
TECHNIQUE = "model-based property testing over generated base graphs, whitelists, inheritance modes and contents of private and mirror indexes against a reference whitelist evaluation"
ASSUMPTIONS = ["with intersection only the whitelist of the queried index itself can whitelist (it is the first in the order); with union the one of any private index in the order",
               "a whitelisted project known privately may or may not be taken from a mirror which has no project list"]

_ups = []


def worker_setup():
    from vt.upstream import Pypi
    _ups.extend([Pypi(), Pypi()])


def run(case, ctx):
    inherit.run(case, ctx, _ups)


def subs():
    return [Sub("whitelists", lambda: inherit.cases(True), run, quick=200, thorough=8000, rule="a project is merged from at least two indexes, or blocked", case_timeout=100)]
