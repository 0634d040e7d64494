from hypothesis import strategies as st

from pbt import gen, model
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("A case is a process list (groups to depth 2, bypassed nodes, any encodings) and a buffer of pixels. The list "
        "read back must process them like a flat list of the same nodes whose every step is compared with the "
        "reference model of what the file stores; second and third generation files and pixel values must be identical. "
        "Non-trivial when pixels change.")
ASSUMPTIONS = ["model comparison is skipped for components that became NaN or larger than 1e9",
               "comparison tolerance of a few single precision rounding steps per node"]


@st.composite
def case(draw):
    spec = draw(gen.plist(min_nodes=1, max_nodes=4, bypass=True))
    d = spec["nodes"][0]["in"]
    vals, stride = draw(gen.pixels(d, 3, 5, 3, -1.0, 2.0, long=False))
    return {"list": spec, "vals": vals, "stride": stride, "gzip": draw(st.booleans())}


def same(a, b):
    return len(a) == len(b) and all(x == y or bits(x) == bits(y) for x, y in zip(a, b))


def run(case, ctx):
    spec, vals, stride = case["list"], case["vals"], case["stride"]
    flat = model.flatten(spec["nodes"])
    z = {"gzip": case["gzip"]}
    res = ctx.ok([["new", "a", spec], ["process", "a", vals, stride], ["write", "a", "a.clf", z],
                  ["read", "b", "a.clf"], ["process", "b", vals, stride], ["write", "b", "b.clf"],
                  ["read", "c", "b.clf"], ["process", "c", vals, stride], ["write", "c", "c.clf"],
                  ["getb64", "b.clf"], ["getb64", "c.clf"],
                  ["new", "f", {"nodes": flat}], ["write", "f", "f.clf"], ["read", "g", "f.clf"],
                  ["steps", "g", vals, stride]])
    a, b, c, steps = res[1], res[4], res[7], res[14]
    stored = [model.through_file(n) for n in flat]
    model.check_steps(ctx, stored, vals, stride, steps, "after reading,")
    last = steps[-1] if steps else vals
    if not same(b, last):
        ctx.fail("the list read back gives %r, its nodes one after the other give %r" % (b, last))
    if res[9] != res[10]:
        ctx.fail("writing what was read twice gives a different file")
    if not same(b, c):
        ctx.fail("pixel values change from the second to the third generation: %r, %r" % (b, c))
    # the original list, within what single precision and stored digits allow
    if all(n["t"] not in ("LUT1D", "LUT3D", "Matrix") for n in flat) and not same(a, b):
        ctx.fail("without tables the list read back must agree exactly: %r, %r" % (a, b))
    for n in flat:
        ctx.label(n["t"])
    return not same(b, vals)


def tests(tier):
    return [Test("round-trip", case(), run, 2500, 60000)]
