"""C25: tables sampled from a function equal the function at the samples."""
import math

from hypothesis import strategies as st

from pbt import gen, model, xmlio
from pbt.core import Test
from pbt.tables import f32, half_to_float

RULE = ("A case is one of the three constructors, a function (polynomials with generated coefficients, which differ per "
        "component for 3D), a resolution (any three for 3D), channels, bit depths, id and name. Every table entry is "
        "compared with the function at the sample the entry stands for; sample values are also processed, in the units "
        "of the input depth, before and after writing and reading a file. Non-trivial when the function is not "
        "constant.")
ASSUMPTIONS = ["resolutions are two or more", "the table is compared in single precision"]

coef = st.one_of(st.integers(-200, 200).map(lambda i: i / 100.0), st.sampled_from([0.0, 1.0, 0.1, 1.0 / 3.0]))
label = st.sampled_from(["", "a", "lut 1", "x<&>\"y", "élan"])


@st.composite
def common(draw, scale):
    a = {"id": draw(label), "name": draw(label), "f": "id"}
    if draw(st.integers(0, 3)):
        a["in"], a["out"] = draw(gen.depth), draw(gen.depth)
    return a


@st.composite
def one(draw):
    a = draw(common(1))
    a["ch"] = draw(st.sampled_from([1, 3]))
    a["res"] = draw(st.one_of(st.integers(2, 12), st.integers(13, 70), st.sampled_from([255, 256, 257, 1024, 1025])))
    m = model.size(a.get("out", "16f"))
    a["poly"] = [k * draw(st.sampled_from([1.0, m])) for k in [draw(coef) for _ in range(4)]]
    return {"kind": "1d", "args": a, "at": draw(st.lists(st.integers(0, a["res"] - 1), min_size=1, max_size=6))}


@st.composite
def three(draw):
    a = draw(common(1))
    a["res"] = [draw(st.integers(2, 7)) for _ in range(3)]
    if draw(st.integers(0, 3)) == 0:
        a["res"] = [a["res"][0]] * 3
    elif draw(st.integers(0, 29)) == 0:
        a["res"] = draw(st.sampled_from([[17, 17, 17], [33, 9, 8], [8, 33, 9], [2, 3, 70]]))
    m = model.size(a.get("out", "16f"))
    a["poly"] = [[k * m for k in draw(st.lists(coef, min_size=5, max_size=5))] for _ in range(3)]
    return {"kind": "3d", "args": a, "at": draw(st.lists(st.tuples(*[st.integers(0, n - 1) for n in a["res"]]),
                                                         min_size=1, max_size=6))}


@st.composite
def half(draw):
    a = draw(common(1))
    if "in" in a:
        a["in"] = draw(st.sampled_from(["16f", "32f"]))
        a["out"] = draw(st.sampled_from(["16f", "32f"]))
    a["ch"] = draw(st.sampled_from([1, 3]))
    a["raw"] = draw(st.booleans())
    a["poly"] = [draw(coef), draw(coef), 0.0, 0.0]
    if draw(st.booleans()):
        del a["poly"]
        a["f"] = draw(st.sampled_from(["id", "affine", "neg", "const", "square", "exp2", "log2"]))
    edge = st.sampled_from([0x5800, 0x57ff, 0x57fe] if a.get("f") == "exp2" else [0, 1, 0x8000, 0x8001])
    return {"kind": "half", "args": a, "at": draw(st.lists(edge, max_size=3)) + draw(st.lists(st.one_of(
        st.integers(0, 65535), st.sampled_from([0, 1, 0x3ff, 0x400, 0x3c00, 0x7bff, 0x7c00, 0x8000, 0x8001, 0xbc00,
                                                0xfbff, 0xfc00, 0x7e00])), min_size=1, max_size=9))}


def func(a, *xs):
    p = a.get("poly")
    if len(xs) == 3:
        x, y, z = xs
        return [k[0] + k[1] * x + k[2] * y + k[3] * z + k[4] * x * y * z for k in p]
    x = xs[0]
    if p:
        return p[0] + x * (p[1] + x * (p[2] + x * p[3]))
    if a["f"] == "exp2":
        return 2.0 ** x if x < 128 else x if x != x else math.inf
    if a["f"] == "log2":
        return math.log(x, 2) if 0 < x < math.inf else -math.inf if x == 0 else x if x == math.inf else math.nan
    return {"id": x, "affine": 0.25 + 0.5 * x, "neg": 1.0 - x, "const": 0.375, "square": x * x}[a["f"]]


def same(g, w, tol=2.0 ** -22):
    if w != w or g != g:
        return w != w and g != g
    if math.inf in (abs(w), abs(g)):
        return w == g or abs(w) > 3.4e38
    return abs(g - w) <= tol * abs(w) + 1e-30


def run(case, ctx):
    a, kind = case["args"], case["kind"]
    din, dout = a.get("in", "16f"), a.get("out", "16f")
    m = model.size(din)
    if kind == "1d":
        want = [v for i in range(a["res"]) for v in [func(a, i / float(a["res"] - 1))] * a["ch"]]
        dims = [a["res"], a["ch"]]
        vals = [f32(m * i / float(a["res"] - 1)) for i in case["at"] for _ in range(3)]
        direct = [func(a, i / float(a["res"] - 1)) for i in case["at"] for _ in range(3)]
    elif kind == "3d":
        r = a["res"]
        want = [v for i in range(r[0]) for j in range(r[1]) for k in range(r[2]) for v in
                func(a, i / (r[0] - 1.0), j / (r[1] - 1.0), k / (r[2] - 1.0))]
        dims = r + [3]
        at = [[i / (n - 1.0) for i, n in zip(p, r)] for p in case["at"]]
        vals = [f32(m * v) for p in at for v in p]
        direct = [v for p in at for v in func(a, *p)]
    else:
        want = [v for u in range(65536) for v in [func(a, half_to_float(u))] * a["ch"]]
        dims = [65536, a["ch"]]
        vals = [half_to_float(u) for u in case["at"] for _ in range(3)]
        direct = [func(a, half_to_float(u)) for u in case["at"] for _ in range(3)]
    script = [["sampled", "a", kind, a], ["lut", "a", 0], ["process", "a", vals, 3]]
    if kind != "half":
        script += [["write", "a", "a.clf"], ["get", "a.clf"], ["read", "b", "a.clf"], ["process", "b", vals, 3]]
    res = ctx.ok(script)
    info, lut = res[0], res[1]
    t = "LUT3D" if kind == "3d" else "LUT1D"
    if info != {"id": a["id"], "name": a["name"], "in": din, "out": dout, "type": t}:
        ctx.fail("the node is %r, asked for %r" % (info, a))
    if lut["dims"] != dims:
        ctx.fail("dimensions %r, expected %r" % (lut["dims"], dims))
    if len(lut["vals"]) != len(want):
        ctx.fail("%d values, expected %d" % (len(lut["vals"]), len(want)))
    raw = kind == "half" and a["raw"]
    for i, (g, w) in enumerate(zip(lut["vals"], want)):
        if not same(g, w):
            ctx.fail("%s entry %d is %r, expected %r; %r" % (kind, i, g, w, a))
    # interpolation between nearby entries may enter by the rounding of the position
    big = max([abs(v) for v in want if v == v and abs(v) != math.inf] or [0.0])
    lists = [(res[2], "")] + ([(res[6], " (after a file)")] if kind != "half" else [])
    for got, what in lists:
        for i, (g, w) in enumerate(zip(got, direct)):
            if kind == "half":
                if vals[i] != vals[i]:
                    continue
                ok = same(g, w)
            else:
                n = a["res"] if kind == "1d" else max(a["res"])
                ok = abs(g - w) <= 4e-7 * n * big + 1e-6 * abs(w) + 1e-9
            if not ok:
                ctx.fail("%s%s: processing %r gave %r, expected %r; %r" % (kind, what, vals[i], g, w, a))
    if kind != "half":
        d = xmlio.parse(res[4]["text"].encode("utf-8"))["nodes"][0]
        if d["array"]["dim"] != dims:
            ctx.fail("dimensions in the file: %r" % d["array"]["dim"])
        for i, (g, w) in enumerate(zip(d["array"]["vals"], want)):
            if not abs(g - w) <= 2e-7 * abs(w) + 5.1e-10:
                ctx.fail("entry %d in the file is %r, expected %r" % (i, g, w))
    ctx.label("%s %s" % (kind, "raw" if raw else din + " " + dout))
    return len(set(want)) > 1


def tests(tier):
    return [Test("1D", one(), run, 1200, 30000), Test("3D", three(), run, 1200, 30000),
            Test("half-domain", half(), run, 35, 1500)]
