"""C06: inherited indexes merge in resolution order and each file shows once."""
from vt import boot  # noqa: F401
from vt import inherit
from vt.core import Sub

LEVEL = "exploration"
TECHNIQUE = "model-based property testing over generated base graphs (chains, diamonds, cycles, deleted bases, repeated bases) against a reference resolution order"
ASSUMPTIONS = ["resolution order: breadth first over the bases as configured, every index once, mirrors last"]

_ups = []


def worker_setup():
    from vt.upstream import Pypi
    _ups.extend([Pypi(), Pypi()])


def run(case, ctx):
    inherit.run(case, ctx, _ups)


def subs():
    return [Sub("private", lambda: inherit.cases(False), run, quick=160, thorough=5000, rule="a project is merged from at least two indexes", case_timeout=100, hang_is_violation=True),
            Sub("mirrors", lambda: inherit.cases(True, 2), run, quick=80, thorough=3000, rule="a project is merged from at least two indexes, or blocked", case_timeout=100, hang_is_violation=True)]
