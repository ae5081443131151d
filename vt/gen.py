"""Shared hypothesis strategies (cases are JSON-able values)."""
from hypothesis import strategies as st


def weighted(*pairs):
    """choose between strategies with integer weights: (weight, strategy), ..."""
    table = []
    for w, s in pairs:
        table.extend([s] * w)

    @st.composite
    def pick(draw):
        return draw(table[draw(st.integers(0, len(table) - 1))])
    return pick()


def op(name, **kw):
    return st.fixed_dictionaries(dict(op=st.just(name), **kw))
