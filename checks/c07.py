import math
import struct

from hypothesis import strategies as st

from pbt import gen, model
from pbt.core import Test
from pbt.nodetest import node_case, run_node
from pbt.tables import f32, half_to_float
from pbt.tables import values as tables_values

RULE = ("A case is one LUT1D node (1 or 3 columns, 2 to 4097 entries, or a half-float domain of 65536 entries, 0, 1 or "
        "3 index maps, any encoding) and pixels, in memory or through a file, compared with a reference model; "
        "non-trivial when at least one component changes value.")
ASSUMPTIONS = ["comparison tolerance of a few single precision rounding steps",
               "cubic interpolation is checked as the linear fallback used where SciPy is missing, as here"]


@st.composite
def half_value(draw):
    k = draw(st.integers(0, 9))
    u = draw(st.one_of(st.integers(0, 65535),
                       st.sampled_from([0, 1, 2, 1023, 1024, 0x3c00, 0x3bff, 0x7bff, 0x7bfe, 0x8000, 0x8001, 0xfbff])))
    a = half_to_float(u)
    if k < 5:
        return a if math.isfinite(a) else 1.0
    if k < 8 and math.isfinite(a) and (u & 0x7fff) < 0x7bff:
        b = half_to_float(u + 1)
        v = f32(a + (b - a) * draw(st.sampled_from([0.25, 0.5, 0.75, 0.1, 0.999])))
        return v if abs(v) > 1e-37 else a
    return draw(st.sampled_from([math.inf, -math.inf, math.nan, 65504.0, 65519.0, 65520.0, 65536.0, 1e6, -65519.0,
                                 -65530.0, -1e9, 0.0, -0.0]))


@st.composite
def half_case(draw):
    s = draw(gen.lut1d_node(half=True, encs=False))
    if draw(st.integers(0, 3)) == 0:
        # a one column table in which every entry is told apart
        s["ch"] = 1
        s["vals"] = {"table": {"kind": "rand", "n": 65536, "ch": 1, "seed": 9, "scale": 1.0, "bias": 0.0}}
    stride = draw(st.sampled_from([3, 3, 4, 1, 2]))
    vals = [draw(half_value()) for _ in range(stride * draw(st.integers(1, 12)))]
    return {"node": s, "vals": vals, "stride": stride, "via": "direct"}


def run_half(case, ctx):
    s, vals = case["node"], case["vals"]
    got = ctx.ok([["nodeproc", s, vals, case["stride"]]])[-1]
    model.check_pixels(ctx, s, vals, case["stride"], got, "half domain")
    ctx.label("half-domain")
    return True


@st.composite
def infinite_case(draw):
    """Some entries are infinite: the others, looked up exactly, are what they are."""
    half = draw(st.integers(0, 5)) == 0
    ch = draw(st.sampled_from([1, 3]))
    s = {"t": "LUT1D", "in": draw(st.sampled_from(["16f", "32f"])), "out": draw(st.sampled_from(["16f", "32f"])),
         "ch": ch, "interp": draw(st.sampled_from(["linear", ""]))}
    if half:
        s["halfDomain"] = True
        s["vals"] = {"table": {"kind": "halfexp", "n": 65536, "ch": ch,
                               "scale": draw(st.sampled_from([1.0, 0.75, 2.0, 64.0]))}}
        edge = 16.0 * s["vals"]["table"]["scale"]
        steps = struct.unpack("<H", struct.pack("<e", edge))[0]
        ks = [draw(st.one_of(st.integers(0, 65535), st.integers(-3, 3).map(lambda i: steps + i),
                             st.sampled_from([0, 1, 2, 0x8000, 0x8001]))) for _ in range(3 * draw(st.integers(1, 4)))]
        vals = [half_to_float(u) for u in ks]
        return {"node": s, "vals": [v if v == v else 1.0 for v in vals], "stride": 3, "via": "direct"}
    n = draw(st.sampled_from([2, 3, 5, 9, 17]))
    finite = st.integers(-40, 400).map(lambda i: i / 16.0)
    s["vals"] = [draw(st.one_of(finite, finite, st.sampled_from([math.inf, -math.inf]))) for _ in range(n * ch)]
    if draw(st.integers(0, 3)) == 0:
        s["enc"] = draw(st.sampled_from(gen.ENCODINGS))
    vals = [draw(st.one_of(st.integers(0, n - 1).map(lambda i: i / (n - 1.0)), st.sampled_from([-0.5, -2.0, 1.25, 3.0])))
            for _ in range(3 * draw(st.integers(1, 5)))]
    return {"node": s, "vals": vals, "stride": 3, "via": draw(st.sampled_from(["direct", "file", "gz"]))}


@st.composite
def imap_values(draw):
    n = draw(st.integers(2, 7) if draw(st.integers(0, 5)) else st.integers(8, 70))
    x = draw(st.sampled_from([0.0, -1.0, -100.0, 0.5]))
    ins = []
    for _ in range(n):
        ins.append(x)
        x += draw(st.one_of(st.integers(1, 500), st.just(100000))) / 250.0
    outs = sorted(draw(st.integers(0, 1023)) for _ in range(n)) if draw(st.booleans()) else \
        [draw(st.integers(0, 1023)) for _ in range(n)]
    return [ins, [float(v) for v in outs]]


@st.composite
def imap_case(draw):
    c = {"values": draw(imap_values()), "cached": draw(st.integers(0, 1)) == 0, "steps": []}
    built = 1 if c["cached"] else 0
    cur, on = c["values"], c["cached"]
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 4))
        if k == 2 and built < 3 and on:
            # changed while the cache is off
            cur = draw(imap_values())
            c["steps"] += [["setuseCachedProcess", False], ["setDimension", len(cur[0])], ["setValues", cur],
                           ["setuseCachedProcess", True]]
            built += 1
        elif k == 0 and built < 3:
            cur = draw(imap_values())
            c["steps"] += [["setDimension", len(cur[0])], ["setValues", cur]]
            built += on
        elif k == 1 and built < 3:
            on = not on
            built += on
            c["steps"].append(["setuseCachedProcess", on])
        vals = []
        for _ in range(draw(st.integers(1, 12))):
            j = draw(st.integers(0, 3))
            v = draw(st.sampled_from(cur[0])) if j == 0 else draw(half_value()) if j == 1 else \
                cur[0][0] + (cur[0][-1] - cur[0][0]) * draw(st.integers(-100, 1100)) / 1000.0
            vals.append(v if not math.isfinite(v) or abs(v) < 60000 else 1.0)
        c["steps"].append(["process", vals])
    return c


def imap_at(m, v):
    ins, outs = m
    if not math.isfinite(v):
        return v
    if v <= ins[0]:
        return outs[0]
    for i in range(1, len(ins)):
        if v <= ins[i]:
            return outs[i - 1] + (outs[i] - outs[i - 1]) * (v - ins[i - 1]) / (ins[i] - ins[i - 1])
    return outs[-1]


def around(v):
    u = struct.unpack("<H", struct.pack("<e", v))[0]
    h = half_to_float(u)
    if h == v:
        return [h]
    a = sorted([half_to_float(u - 1) if u & 0x7fff else -math.copysign(half_to_float(1), v), h, half_to_float(u + 1)])
    return [max(w for w in a if w <= v), min(w for w in a if w >= v)]


def run_imap(case, ctx):
    cur, on, k, used = case["values"], case["cached"], 0, on_ever(case)
    got = ctx.ok([["imapobj", len(cur[0]), cur, on, case["steps"]]])[0]
    for s in case["steps"]:
        if s[0] == "setValues":
            cur = s[1]
        elif s[0] == "setuseCachedProcess":
            on = s[1]
        elif s[0] == "process":
            for v, g in zip(s[1], got[k]):
                # the cache holds the map at the half values
                w = [imap_at(cur, h) for h in (around(v) if on and math.isfinite(v) else [v])]
                tol = 2e-6 * max(abs(x) for x in w) if math.isfinite(v) else 0.0
                if not (math.isnan(v) and math.isnan(g)) and not min(w) - tol <= g <= max(w) + tol:
                    ctx.fail("index map %r%s: %r gives %r, expected %r" % (cur, " (cached)" if on else "", v, g, w))
            k += 1
    ctx.label("index map" + (" cached" if used else ""))
    return True


def on_ever(case):
    return case["cached"] or any(s == ["setuseCachedProcess", True] for s in case["steps"])


def half_index(v):
    """The bit pattern of the nearest half float."""
    if math.isinf(v) or abs(v) >= 65520.0:
        return 0x7c00 if v > 0 else 0xfc00
    return struct.unpack("<H", struct.pack("<e", v))[0]


@st.composite
def array_case(draw):
    ch = draw(st.sampled_from([1, 3]))
    if draw(st.booleans()):
        table = {"kind": "rand", "n": 65536, "ch": ch, "seed": 9, "scale": 1.0, "bias": 0.0}
        vals = [draw(half_value()) for _ in range(draw(st.integers(1, 12)))]
        # between two halves, at any distance from either
        vals += [f32(draw(st.integers(1, 2 ** 24)) * 2.0 ** draw(st.integers(-38, -9)) * draw(st.sampled_from([1, -1])))
                 for _ in range(4)]
        return {"dims": [65536, ch], "vals": {"table": table}, "nearest": True,
                "at": [[v if v == v else 1.0, draw(st.integers(0, 2))] for v in vals]}
    n = draw(st.integers(2, 9))
    return {"dims": [n, ch], "vals": [float(draw(st.integers(-50, 50))) for _ in range(n * ch)], "nearest": False,
            "at": [[draw(st.integers(-3, n + 3)), draw(st.integers(0, 2))] for _ in range(6)]}


def run_array(case, ctx):
    n, ch = case["dims"]
    vals = tables_values(case["vals"])
    calls = [["lookup1DHalfDomain", [v], [c, False]] if case["nearest"] else ["lookup1D", [v], [c]]
             for v, c in case["at"]]
    got = ctx.ok([["arrayobj", case["dims"], case["vals"], calls]])[0]
    for (v, c), g in zip(case["at"], got):
        i = half_index(v) if case["nearest"] else max(0, min(v, n - 1))
        want = vals[i * ch + (c if ch == 3 else 0)]
        if g != [want]:
            ctx.fail("%s of a %dx%d array at %r, column %d: %r instead of entry %d, %r" % (
                "nearest half entry" if case["nearest"] else "entry", n, ch, v, c, g, i, want))
    ctx.label("array " + ("half domain" if case["nearest"] else "lookup"))
    return True


def tests(tier):
    return [Test("model", node_case(gen.lut1d_node(half=False), min_stride=1), run_node, 3500, 100000),
            Test("half-domain", half_case(), run_half, 250, 8000),
            Test("infinite entries", infinite_case(), run_node, 400, 12000),
            Test("array", array_case(), run_array, 100, 3000),
            Test("index map", imap_case(), run_imap, 60, 2000)]
