from pbt import gen
from pbt.core import Test
from pbt.nodetest import node_case, run_node

RULE = ("A case is one Matrix node (1 to 5 rows, with or without offset column, any encoding) and pixels, built in "
        "memory or read from a plain or compressed file, compared with a reference model; non-trivial when at least "
        "one component changes value.")
ASSUMPTIONS = ["pixels have at least as many components as the matrix has rows",
               "comparison tolerance of a few single precision rounding steps"]


def tests(tier):
    return [Test("model", node_case(gen.matrix_node()), run_node, 5000, 150000)]
