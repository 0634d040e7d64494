import base64
import math
import struct
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pbt import gen, tables, xmlio
from pbt.core import Test
from pbt.tables import f16, f32

RULE = ("A case is a table of values (or of raw bit patterns), a node type and an encoding. Written files are parsed "
        "independently and every token must be the bit pattern of its value rounded once; documents made of given bit "
        "patterns must be read as exactly those values, and written back as the same patterns. All 65536 half patterns "
        "are enumerated for each 16 bit encoding. Non-trivial when some value is not a small integer.")
ASSUMPTIONS = ["values written with a 32 bit encoding are finite in single precision or infinite or NaN themselves",
               "NaNs keep being NaNs; their payload is not compared"]

ENCS = ["integer16bit", "integer32bit", "integer64bit", "hex16bit", "hex32bit", "hex64bit"]
FMT = {"16": (">e", ">H"), "32": (">f", ">I"), "64": (">d", ">Q")}


def width(enc):
    return "16" if enc == "raw" else enc[-5:-3]


def pattern(v, w):
    f, u = FMT[w]
    v = f16(v) if w == "16" else f32(v) if w == "32" else v
    return struct.unpack(u, struct.pack(f, v))[0]


def value_of(u, w):
    f, i = FMT[w]
    return struct.unpack(f, struct.pack(i, u))[0]


def token(u, enc):
    w = int(width(enc))
    return str(u) if enc == "raw" or enc.startswith("integer") else "%0*x" % (w // 4, u)


special = st.sampled_from([0.0, -0.0, math.inf, -math.inf, math.nan, 65504.0, 65519.9, 65520.0, 1e5, 6e-8, 2.9e-8,
                           2.98e-8, -6.1e-5, 6.103515625e-05, 1.0 + 2 ** -11, 1.0 + 3 * 2 ** -11, 1.0 + 2 ** -24,
                           1.0 + 2 ** -11 + 2 ** -40, 1.0 + 2 ** -24 + 2 ** -45,
                           2.0 ** -149, 2.0 ** -150, 1.0000001 * 2.0 ** -150, 3.4028234e38, 2.0 ** -1074, 1e-310,
                           0.1, 1.0 / 3, math.pi, -math.e])


def any_value(w):
    lim = 3.4028234e38 if w == "32" else 1e300
    parts = [special, gen.fl(-2, 2), st.floats(-lim, lim), st.floats(-2, 2), st.floats(-7e4, 7e4)]
    # just beside the middle of two neighbouring values of the target precision
    if w == "16":
        parts.append(st.builds(lambda u, d: value_of(u, "16") * (1 + 2.0 ** -12 * d), st.integers(0, 0x7bff),
                               st.floats(-2, 2)))
    if w == "32":
        parts.append(st.builds(lambda u, d: value_of(u, "32") * (1 + 2.0 ** -25 * d), st.integers(0, 0x7f700000),
                               st.floats(-2, 2)))
    return st.one_of(*parts)


def shape(draw, t, n):
    """dims attribute and count for about n values."""
    if t == "LUT1D":
        ch = draw(st.sampled_from([1, 3]))
        k = max(2, n)
        return [k, ch], k * ch
    if t == "LUT3D":
        d = [draw(st.integers(2, 3)) for _ in range(3)]
        return d + [3], d[0] * d[1] * d[2] * 3
    r = draw(st.sampled_from([[3, 3, 3], [3, 4, 3], [2, 2, 2], [4, 5, 4]]))
    return r, r[0] * r[1]


@st.composite
def write_case(draw):
    t = draw(st.sampled_from(["LUT1D", "LUT3D", "Matrix"]))
    enc = draw(st.sampled_from(ENCS + (["raw"] if t == "LUT1D" else [])))
    dims, count = shape(draw, t, draw(st.integers(2, 8)))
    return {"t": t, "enc": enc, "dims": dims, "out": draw(gen.depth),
            "vals": [draw(any_value(width(enc))) for _ in range(count)]}


def spec_of(case):
    t, dims = case["t"], case["dims"]
    s = {"t": t, "in": "16f", "out": case.get("out", "16f"), "vals": case["vals"]}
    if case["enc"] == "raw":
        s["rawHalfs"] = True
    else:
        s["enc"] = case["enc"]
    if t == "LUT1D":
        s["ch"], s["interp"] = dims[1], "linear"
    elif t == "LUT3D":
        s["dims"], s["interp"] = dims[:3], "trilinear"
    else:
        s["dims"] = dims
    return s


def tokens_of(ctx, b64):
    e = ET.fromstring(base64.b64decode(b64))[0]
    for c in e:
        if xmlio.tag_of(c) == "Array":
            return c.text.split(), c.attrib.get("floatEncoding"), e.attrib.get("rawHalfs"), c.attrib["dim"]
    ctx.fail("no Array in the written file")


def check_tokens(ctx, toks, want, enc, what):
    w = width(enc)
    if len(toks) != len(want):
        ctx.fail("%s: %d values written, expected %d" % (what, len(toks), len(want)))
    for i, (tok, u) in enumerate(zip(toks, want)):
        v = value_of(u, w)
        try:
            if enc == "raw" or enc.startswith("integer"):
                got = int(tok)
            else:
                if len(tok) != int(w) // 4:
                    raise ValueError
                got = int(tok, 16)
        except ValueError:
            ctx.fail("%s: value %d is written as %r" % (what, i, tok))
        if v != v:
            if not (0 <= got < 1 << int(w)) or value_of(got, w) == value_of(got, w):
                ctx.fail("%s: value %d is %r, expected a NaN" % (what, i, tok))
        elif got != u:
            ctx.fail("%s: value %d is %r, expected %r (%r)" % (what, i, tok, token(u, enc), v))


def same(a, b):
    return len(a) == len(b) and all(xmlio.bits(x) == xmlio.bits(y) for x, y in zip(a, b))


def run_write(case, ctx):
    enc, w = case["enc"], width(case["enc"])
    vals = case["vals"]
    want = [pattern(v, w) for v in vals]
    script = [["new", "a", {"nodes": [spec_of(case)]}], ["write", "a", "a.clf"], ["getb64", "a.clf"],
              ["read", "b", "a.clf", True], ["write", "b", "b.clf"], ["getb64", "b.clf"]]
    if case["t"] != "Matrix":
        script.append(["lut", "b", 0])
    res = ctx.ok(script)
    for what, data in (("written", res[2]), ("written again", res[5])):
        toks, fe, raw, dim = tokens_of(ctx, data)
        if (fe or "string") != ("string" if enc == "raw" else enc):
            ctx.fail("%s: floatEncoding is %r" % (what, fe))
        if enc == "raw" and raw not in ("True", "true"):
            ctx.fail("%s: rawHalfs is %r" % (what, raw))
        if [int(x) for x in dim.split()] != case["dims"]:
            ctx.fail("%s: dim is %r, expected %r" % (what, dim, case["dims"]))
        check_tokens(ctx, toks, want, enc, "%s as %s" % (what, enc))
    if case["t"] != "Matrix" and not same(res[6]["vals"], [value_of(u, w) for u in want]):
        ctx.fail("%s: read back as %r" % (enc, res[6]["vals"]))
    ctx.label("write:" + enc)
    return any(v != v or v != math.floor(v) if abs(v) < 1e18 or v != v else True for v in vals)


@st.composite
def read_case(draw):
    t = draw(st.sampled_from(["LUT1D", "LUT1D", "LUT3D", "Matrix"]))
    enc = draw(st.sampled_from(ENCS + (["raw"] if t == "LUT1D" else [])))
    w = int(width(enc))
    dims, count = shape(draw, t, draw(st.integers(2, 8)))
    top = (1 << w) - 1
    exp = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}[w]
    edge = st.sampled_from([0, 1, top, top // 2, top // 2 + 1, exp, exp - 1, exp + 1, exp | (top // 2 + 1),
                            exp // 2, 10, 255, 256, 1 << (w // 2), (1 << (w // 2)) - 1])
    pat = st.one_of(edge, st.integers(0, top), st.integers(0, exp - 1))
    return {"t": t, "enc": enc, "dims": dims, "bits": [draw(pat) for _ in range(count)],
            "upper": draw(st.booleans()), "sep": draw(st.sampled_from([" ", "\n", "  ", "\t"])),
            "flag": draw(st.sampled_from(["True", "true"]))}


def document(case):
    enc = case["enc"]
    toks = [token(u, enc) for u in case["bits"]]
    if case.get("upper"):
        toks = [x.upper() for x in toks]
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<ProcessList id="x"><%s inBitDepth="16f" outBitDepth="32f"%s>'
            '<Array dim="%s"%s>%s</Array></%s></ProcessList>' % (
                case["t"], ' rawHalfs="%s"' % case.get("flag", "True") if enc == "raw" else "",
                " ".join(map(str, case["dims"])), "" if enc == "raw" else ' floatEncoding="%s"' % enc,
                case.get("sep", " ").join(toks), case["t"]))


def run_read(case, ctx):
    enc, w = case["enc"], width(case["enc"])
    want = [value_of(u, w) for u in case["bits"]]
    script = [["put", "a.clf", document(case)], ["read", "a", "a.clf", True], ["write", "a", "b.clf"],
              ["getb64", "b.clf"], ["call", "a", "__len__"]]
    if case["t"] != "Matrix":
        script.append(["lut", "a", 0])
    res = ctx.ok(script)
    if case["t"] != "Matrix" and not same(res[5]["vals"], want):
        bad = [(token(u, enc), a, b) for u, a, b in zip(case["bits"], res[5]["vals"], want)
               if xmlio.bits(a) != xmlio.bits(b)]
        ctx.fail("%s: (pattern, read, expected): %r" % (enc, bad[:5]))
    toks = tokens_of(ctx, res[3])[0]
    check_tokens(ctx, toks, case["bits"], enc, "rewritten as " + enc)
    ctx.label("read:" + enc)
    return True


def run_all_halves(case, ctx):
    enc, t = case["enc"], case["t"]
    if t == "LUT3D":
        dims = [28, 28, 28, 3]
        n = 28 ** 3 * 3
    else:
        dims, n = [65536, 1], 65536
    pats = [(u * case["mul"]) & 0xffff for u in range(n)]
    want = [tables.half_to_float(u) for u in pats]
    doc = document({"t": t, "enc": enc, "dims": dims, "bits": pats})
    script = [["put", "a.clf", doc], ["read", "a", "a.clf", True], ["lut", "a", 0]]
    if t == "LUT3D":
        script += [["write", "a", "b.clf"], ["getb64", "b.clf"]]
    res = ctx.ok(script)
    if not same(res[2]["vals"], want):
        bad = [(u, a, b) for u, a, b in zip(pats, res[2]["vals"], want) if xmlio.bits(a) != xmlio.bits(b)]
        ctx.fail("%s: %d of the half patterns are read wrongly: %r" % (enc, len(bad), bad[:5]))
    if t == "LUT3D":
        check_tokens(ctx, tokens_of(ctx, res[4])[0], pats, enc, "all halves as " + enc)
    ctx.label("all-halves:" + enc)
    return True


def tests(tier):
    halves = [{"enc": e, "t": "LUT3D", "mul": 1} for e in ("integer16bit", "hex16bit")] + \
        [{"enc": "raw", "t": "LUT1D", "mul": 1}]
    return [Test("write", write_case(), run_write, 2500, 60000),
            Test("read", read_case(), run_read, 2500, 60000),
            Test("all-halves", st.builds(lambda e, m: {"enc": e, "t": "LUT1D" if e == "raw" else "LUT3D", "mul": m},
                                         st.sampled_from(["integer16bit", "hex16bit", "raw"]),
                                         st.sampled_from([1, 3, 5, 257, 4097])), run_all_halves, 7, 70, halves)]
