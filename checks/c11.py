from pbt import gen, model
from pbt.core import Test
from pbt.nodetest import node_case, pair_case, run_node, run_pair

RULE = ("A case is one Log node (six styles, 0 to 3 parameter elements with and without channels) and pixels, in "
        "memory or through a file, compared with a reference model; or a node followed by its inverse style, compared "
        "with the input. Non-trivial when a component changes value or a round trip was compared.")
ASSUMPTIONS = ["pixels have at least three components",
               "comparison tolerance of a few single precision rounding steps"]

INVERSE = {"log10": "antiLog10", "log2": "antiLog2", "linToLog": "logToLin"}


def limited(s, r, px, mid):
    b = model.size(s["in"])
    if s["style"] in ("log10", "log2"):
        return min(px[:3]) <= 1e-30
    if s["style"] == "linToLog":
        # the argument of the logarithm must be positive
        for i, p in enumerate(model._log_params(s)):
            lrb = 10.0 ** min(-0.00001, (p[2] - p[1]) * 0.002 / p[0])
            if lrb + (px[i] / b - p[4]) * (1.0 - lrb) / (p[3] - p[4]) < 1e-4:
                return True
    return False


def tests(tier):
    return [Test("model", node_case(gen.log_node()), run_node, 3000, 80000),
            Test("inverse", pair_case(gen.log_node(styles=list(INVERSE)), INVERSE, -0.5, 1.5),
                 lambda c, x: run_pair(c, x, limited), 2000, 60000)]
