from pbt import gen
from pbt.core import Test
from pbt.nodetest import node_case, run_node

RULE = ("A case is one Range node (bit depths, any subset of the limits, style, defaultRange) and a buffer of "
        "pixels, built in memory or read from a plain or compressed file, compared component by component with a "
        "reference model; non-trivial when at least one component changes value.")
ASSUMPTIONS = ["minInValue < maxInValue when both are present; no NaN input",
               "comparison tolerance of a few single precision rounding steps"]


def tests(tier):
    return [Test("range-model", node_case(gen.range_node(), min_stride=1), run_node, 5000, 150000)]
