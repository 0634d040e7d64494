from hypothesis import strategies as st

from pbt import gen, model
from pbt.core import Test
from pbt.nodetest import node_case, pair_case, run_node, run_pair

RULE = ("A case is one ASC CDL node (any style, any subset of the parameters) or color correction element and pixels, "
        "in memory or through a file, compared with a reference model; or a node followed by its reverse style, "
        "compared with the input. Non-trivial when a component changes value, or when a round trip was compared.")
ASSUMPTIONS = ["slope, power and saturation are positive",
               "comparison tolerance of a few single precision rounding steps"]

INVERSE = {"Fwd": "Rev", "v1.2_Fwd": "v1.2_Rev", "FwdNoClamp": "RevNoClamp", "noClampFwd": "noClampRev"}


def limited(s, r, px, mid):
    f = s if "Fwd" in s["style"] else r
    b = model.size(s["in"])
    v = [x / b for x in px[:3]]
    if f is s and "oClamp" not in s["style"]:
        # nothing may be clamped before the power or after the saturation
        t = [v[i] * s.get("slope", [1] * 3)[i] + s.get("offset", [0] * 3)[i] for i in range(3)]
        if min(t) < 0.001 or max(t) > 0.999 or min(v) < 0 or max(v) > 1:
            return True
        free = model.node(dict(s, style="FwdNoClamp"), px)
        return min(free[:3]) < 0.001 or max(free[:3]) > 0.999
    if "oClamp" not in s["style"]:
        free = model.node(dict(s, style="RevNoClamp"), px)
        t = model.node(dict(s, style="RevNoClamp", slope=[1.0] * 3, offset=[0.0] * 3), px)
        return (min(v) < 0.001 or max(v) > 0.999 or min(free[:3]) < 0.001 or max(free[:3]) > 0.999
                or min(t[:3]) < 0.001 or max(t[:3]) > 0.999)
    return False


def tests(tier):
    fwd = gen.cdl_node(styles=list(INVERSE))
    return [Test("model", node_case(gen.cdl_node(), min_stride=1), run_node, 2500, 80000),
            Test("color-correction", node_case(gen.cc_node()), run_node, 700, 20000),
            Test("inverse", pair_case(fwd, INVERSE, 0.0, 1.0), lambda c, x: run_pair(c, x, limited), 2000, 60000)]
