"""Generator helpers."""
from hypothesis import strategies as st


@st.composite
def _mix(draw, parts):
    return draw(parts[draw(st.sampled_from(range(len(parts))))])


def mix(*parts):
    """one of the parts, each equally likely: unlike st.one_of, a part given twice counts twice and nested choices are not flattened"""
    return _mix(parts) if len(parts) > 1 else parts[0]
