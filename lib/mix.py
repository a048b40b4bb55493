"""A choice between strategies that keeps their weights: st.one_of counts a strategy that is listed twice only once,
and takes the branches of a nested choice one by one."""
from hypothesis import strategies as st


@st.composite
def _pick(draw, ss):
    return draw(ss[draw(st.integers(0, len(ss) - 1))])


def mix(*ss):
    return _pick(ss)
