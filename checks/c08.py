import math

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Test
from pbt.nodetest import node_case, run_node

RULE = ("A case is one LUT3D node (grid sizes 2 to 33, equal or not, trilinear or tetrahedral, 0, 1 or 3 index maps, "
        "any encoding) and pixels, in memory or through a file, compared with a reference model; non-trivial when at "
        "least one component changes value.")
ASSUMPTIONS = ["comparison tolerance of a few single precision rounding steps"]


@st.composite
def infinite_case(draw):
    """Some entries are infinite: the other grid points are what they are."""
    dims = [draw(st.sampled_from([2, 3, 5])) for _ in range(3)]
    finite = st.integers(-40, 400).map(lambda i: i / 16.0)
    bad = st.sampled_from([math.inf, -math.inf])
    k = draw(st.sampled_from([2, 4, 9]))
    s = {"t": "LUT3D", "in": draw(st.sampled_from(["16f", "32f"])), "out": draw(st.sampled_from(["16f", "32f"])),
         "dims": dims, "interp": draw(st.sampled_from(["trilinear", "tetrahedral"])),
         "vals": [draw(bad if draw(st.integers(0, k)) == 0 else finite)
                  for _ in range(dims[0] * dims[1] * dims[2] * 3)]}
    if draw(st.integers(0, 3)) == 0:
        s["enc"] = draw(st.sampled_from(gen.ENCODINGS))
    vals = []
    for _ in range(draw(st.integers(1, 6))):
        at = [draw(st.integers(0, d - 1)) / (d - 1.0) for d in dims]
        if draw(st.booleans()):
            # on a line of the grid: only the two ends of the edge matter
            a = draw(st.integers(0, 2))
            at[a] = draw(st.sampled_from([0.125, 0.25, 0.5, 0.875, -1.0, 2.0]))
        vals += at
    return {"node": s, "vals": vals, "stride": 3, "via": draw(st.sampled_from(["direct", "file", "gz"]))}


def tests(tier):
    return [Test("infinite entries", infinite_case(), run_node, 300, 10000),
            Test("model", node_case(gen.lut3d_node(big=True)), run_node, 3500, 100000)]
