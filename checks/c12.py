from pbt import gen
from pbt.core import Test
from pbt.nodetest import node_case, run_node

RULE = ("A case is one ExposureContrast node (three styles, with and without parameters) and pixels, in memory or "
        "through a file, compared with a reference model; non-trivial when at least one component changes value.")
ASSUMPTIONS = ["pixels have at least three components; the pivot is positive",
               "comparison tolerance of a few single precision rounding steps"]


def tests(tier):
    return [Test("model", node_case(gen.ec_node()), run_node, 5000, 120000)]
