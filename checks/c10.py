from pbt import gen, model
from pbt.core import Test
from pbt.nodetest import node_case, pair_case, run_node, run_pair

RULE = ("A case is one Gamma node (four styles, 0 to 3 parameter elements with and without channels, integer and float "
        "parameters) and pixels, in memory or through a file, compared with a reference model; or a node followed by "
        "its reverse style, compared with the input. Non-trivial when a component changes value or a round trip was "
        "compared.")
ASSUMPTIONS = ["pixels have at least three components; monitor curve parameters have gamma > 1 and an offset "
               "that is not negative, or negative where the power is whole",
               "comparison tolerance of a few single precision rounding steps"]

INVERSE = {"basicFwd": "basicRev", "moncurveFwd": "moncurveRev"}


def limited(s, r, px, mid):
    plain = s["style"].startswith("basic") or 0.0 in [p[1] for p in s["params"]] or not s["params"]
    return plain and min(px[:3]) < 0


def tests(tier):
    return [Test("model", node_case(gen.gamma_node()), run_node, 3000, 80000),
            Test("inverse", pair_case(gen.gamma_node(styles=list(INVERSE)), INVERSE, -0.5, 2.0),
                 lambda c, x: run_pair(c, x, limited), 2000, 60000)]
