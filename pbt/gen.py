"""Hypothesis strategies for node and list specifications, pixels and metadata."""
import math
import struct

from hypothesis import strategies as st

from . import model
from .tables import f32

DEPTHS = ["8i", "10i", "12i", "16i", "16f", "32f"]
FLOAT_DEPTHS = ["16f", "32f"]
ENCODINGS = ["integer16bit", "integer32bit", "integer64bit", "hex16bit", "hex32bit", "hex64bit"]

depth = st.sampled_from(DEPTHS)


def fl(lo, hi):
    """float32-representable floats of [lo, hi]."""
    lo32, hi32 = f32(lo), f32(hi)
    if lo32 < lo:
        lo32 = f32(math.nextafter(lo, math.inf) + abs(lo) * 2e-7)
    if hi32 > hi:
        hi32 = f32(hi - abs(hi) * 2e-7)
    return st.floats(min_value=lo32, max_value=hi32, width=32, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False)


def r4(lo, hi):
    """Round-ish decimal parameters (shrink well, are exact in text)."""
    return st.one_of(st.integers(int(math.ceil(lo * 1000)), int(math.floor(hi * 1000))).map(lambda i: i / 1000.0),
                     st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_subnormal=False))


unit_edge = st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75, f32(0.1), f32(1.0 / 3), f32(1 / 255.0), f32(254 / 255.0)])
wild = st.sampled_from([-0.0, -1.0, 2.0, -0.5, 1.5, 10.0, -10.0, f32(1e-5), f32(-1e-5), f32(1e-7), 100.0, 1000.0,
                        f32(1.0 + 2 ** -20), f32(1.0 - 2 ** -20), f32(-2 ** -24)])


@st.composite
def value(draw, d="16f", lo=-4.0, hi=4.0):
    """A pixel component in the units of bit depth d."""
    v = draw(_value(d, lo, hi))
    return 0.0 if 0.0 < abs(v) < 1e-7 else v


@st.composite
def _value(draw, d, lo, hi):
    m = model.size(d)
    k = draw(st.integers(0, 9))
    if m > 1.0:
        if k < 4:
            return float(draw(st.integers(0, int(m))))
        if k < 6:
            return float(draw(st.sampled_from([0, 1, int(m), int(m) - 1, int(m) // 2, int(m) // 2 + 1])))
        if k < 8:
            return f32(draw(fl(0.0, m)))
        return f32(draw(fl(max(lo, -0.5) * m, min(hi, 1.5) * m)))
    if k < 3:
        v = draw(unit_edge)
    elif k < 6:
        v = draw(fl(0.0, 1.0))
    elif k < 8:
        v = draw(fl(lo, hi))
    else:
        v = draw(wild)
    return min(max(v, lo), hi) if v == v else v


@st.composite
def pixels(draw, d="16f", min_stride=3, max_stride=6, max_pixels=4, lo=-4.0, hi=4.0, long=True):
    """(values, stride); stride 0 means the whole buffer is one pixel."""
    stride = draw(st.one_of(st.sampled_from([s for s in (3, 4) if min_stride <= s <= max_stride] or [min_stride]),
                            st.integers(min_stride, max_stride)))
    k = draw(st.integers(0, 9))
    if k == 0:
        vals = [draw(value(d, lo, hi)) for _ in range(stride)]
        return vals, 0
    n = draw(st.integers(1, max_pixels))
    vals = [draw(value(d, lo, hi)) for _ in range(stride * n)]
    if long and k == 9:
        # a long run of pixels: repeat with small systematic changes
        reps = draw(st.integers(2, 40))
        if draw(st.integers(0, 7)) == 0:
            reps = -(-draw(st.sampled_from([130, 260, 520, 1030, 2050, 4100])) // n)
        base = list(vals)
        m = model.size(d)
        for r in range(1, reps):
            w = (r * 0.6180339887) % 1.0
            vals.extend(f32(min(max(v * (1 - w) + w * w * m, lo * m if m == 1 else v), hi * m)) for v in base)
    return vals, stride


# --------------------------------------------------------------------------
# Text

name_chars = st.characters(
    codec="utf-8",
    exclude_categories=("Cs", "Cc", "Cn", "Co", "Zl", "Zp"),
)
ascii_text = st.text(st.sampled_from("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-.:/()#"), max_size=16)
markup_text = st.text(st.sampled_from("ab<>&\"' ;=[]!-"), max_size=12)
any_text = st.text(name_chars, max_size=12)
# hundreds of characters, in words
long_text = st.builds(lambda w, n, sep: sep.join(w[i % len(w)] + str(i) for i in range(n)),
                      st.lists(st.sampled_from(["lorem", "Film", "<i>", "&", "\u00e9t\u00e9", "x" * 40]), min_size=1, max_size=4),
                      st.integers(10, 90), st.sampled_from([" ", "_", ", "]))
# the same with white space that must be kept in the text of an element
long_body = st.builds(lambda t, a, b: a + t + b, st.builds(lambda t, sep: sep.join(t.split(" ")), long_text,
                                                         st.sampled_from(["  ", "\n", "\n    ", "\t", " \n\n"])),
                      st.sampled_from(["", " ", "\n  "]), st.sampled_from(["", "  ", "\n"]))


def _trim(t):
    return t


attr_text = st.one_of(ascii_text, markup_text, any_text, ascii_text, markup_text, long_text, st.sampled_from(["True", "False", "None", "0", "1.0", "%s", "{}"])).filter(
    lambda t: all(c not in "\u0085\u2028\ufffe\uffff" for c in t))
body_text = st.one_of(ascii_text, markup_text, any_text, long_text, long_body, st.just("line one\nline two"),
                      st.just("tab\tseparated")).filter(
    lambda t: all(c not in "\u0085\u2028\ufffe\uffff" for c in t))


@st.composite
def common(draw, s, meta):
    """Ids, names, descriptions, dynamic parameters."""
    if meta:
        if draw(st.booleans()):
            s["id"] = draw(attr_text)
        if draw(st.booleans()):
            s["name"] = draw(attr_text)
        n = draw(st.integers(0, 5))
        if n > 2:
            n = n - 2 if draw(st.integers(0, 9)) else n + 4
            s["descs"] = [draw(body_text) for _ in range(n)]
        if draw(st.integers(0, 3)) == 0:
            s["dyn"] = draw(st.lists(st.sampled_from(["EXPOSURE", "CONTRAST", "PIVOT", "LUT", "GAMMA", "VIEWING_LOOK_SWITCH_2"]),
                                     min_size=1, max_size=5, unique=True))
        if draw(st.integers(0, 7)) == 0:
            s["extra"] = [["custom" + draw(st.sampled_from(["", "Attr", "X1"])), draw(attr_text)]]
    return s


@st.composite
def depths(draw, chain=None):
    """(in, out); chain restricts the input depth."""
    return (chain or draw(depth)), draw(depth)


# --------------------------------------------------------------------------
# Nodes

@st.composite
def range_node(draw, din=None, dout=None, meta=False):
    din = din or draw(depth)
    dout = dout or draw(depth)
    s = {"t": "Range", "in": din, "out": dout,
         "style": draw(st.sampled_from(["", "clamp", "noClamp"])), "lim": {}}
    which = draw(st.sampled_from(["all", "all", "min", "max", "none", "default", "some", "defsome"]))
    mi, mo = model.size(din), model.size(dout)

    def pair(m):
        if m > 1 and draw(st.booleans()):
            a = draw(st.integers(0, int(m) - 1))
            b = draw(st.integers(a + 1, int(m)))
            if draw(st.booleans()):
                return float(a), float(b)
            return a, b
        a = draw(r4(-1.0, 1.0))
        b = a + draw(r4(0.01, 3.0))
        return a * m, b * m
    li, hi_ = pair(mi)
    lo, ho = pair(mo)
    if which == "default" or which == "defsome":
        s["defaultRange"] = True
    keys = {"all": ["minIn", "maxIn", "minOut", "maxOut"], "min": ["minIn", "minOut"],
            "max": ["maxIn", "maxOut"], "none": [], "default": []}.get(which)
    if which == "some":
        keys = draw(st.lists(st.sampled_from(["minIn", "maxIn", "minOut", "maxOut"]), unique=True, max_size=3))
    if which == "defsome":
        keys = draw(st.lists(st.sampled_from(["minOut", "maxOut"]), unique=True, max_size=2)) \
            + draw(st.sampled_from([[], ["minIn", "maxIn"]]))
    allv = {"minIn": li, "maxIn": hi_, "minOut": lo, "maxOut": ho}
    for k in keys:
        s["lim"][k] = allv[k]
    if which == "defsome":
        # the defaults complete the limits: keep min < max
        if "minOut" in s["lim"] and "maxOut" not in s["lim"]:
            s["lim"]["minOut"] = min(s["lim"]["minOut"], 0.9 * mo)
        if "maxOut" in s["lim"] and "minOut" not in s["lim"]:
            s["lim"]["maxOut"] = max(s["lim"]["maxOut"], 0.1 * mo)
    return draw(common(s, meta))


@st.composite
def matrix_node(draw, din=None, dout=None, meta=False, maxn=5, encs=True, n=None):
    n = n or draw(st.sampled_from([3, 3, 3, 3, 4, 2, 1, 5][:3 + maxn]))
    cols = draw(st.sampled_from([n, n, n + 1]))
    dims = [n, cols] + draw(st.sampled_from([[n], [n], []]))
    if len(dims) == 3:
        dims[2] = 3 if n == 3 else n
    mode = draw(st.integers(0, 4))
    if mode == 0:
        vals = [1.0 if i // cols == i % cols else 0.0 for i in range(n * cols)]
        k = draw(st.integers(0, n * cols - 1))
        vals[k] = draw(r4(-2.0, 2.0))
    elif mode == 1:
        vals = [float(x) for x in draw(st.permutations(range(1, n * cols + 1)))]
        if draw(st.integers(0, 3)) == 0:
            vals = [int(x) for x in vals]
    else:
        vals = [draw(r4(-2.0, 2.0)) for _ in range(n * cols)]
    s = {"t": "Matrix", "in": din or draw(depth), "out": dout or draw(depth), "dims": dims, "vals": vals}
    if encs and draw(st.integers(0, 4)) == 0:
        s["enc"] = draw(st.sampled_from(ENCODINGS))
    return draw(common(s, meta))


@st.composite
def index_maps(draw, d, n, count=None, entries=None):
    """0, 1 or 3 index maps for input depth d and n LUT entries (3 sizes for a 3D LUT)."""
    count = draw(st.sampled_from([1, 3])) if count is None else count
    out = []
    m = model.size(d)
    for c in range(count):
        k = draw(st.integers(2, 5) if draw(st.integers(0, 7)) else st.integers(6, 40))
        if m > 1:
            ins = sorted(draw(st.lists(st.integers(0, int(m)), min_size=k, max_size=k, unique=True)))
            ins = [float(x) for x in ins]
        else:
            ins = sorted(draw(st.lists(st.integers(-2000, 4000), min_size=k, max_size=k, unique=True)))
            ins = [x / 1000.0 for x in ins]
        size = n[c % len(n)] if isinstance(n, (list, tuple)) else n
        outs = [draw(st.integers(0, size - 1)) for _ in range(k)]
        if draw(st.booleans()):
            outs = sorted(outs)
        out.append([ins, outs])
    return out


def lutvals(draw, count, ch, out_depth, big):
    m = model.size(out_depth)
    if big:
        return {"table": {"kind": draw(st.sampled_from(["rand", "rand", "mono", "ramp"])),
                          "n": count // ch, "ch": ch, "seed": draw(st.integers(0, 1000)),
                          "scale": draw(st.sampled_from([1.0, 1.0, 2.0])) * m, "bias": draw(st.sampled_from([0.0, 0.0, -0.5])) * m}}
    if m > 1 and draw(st.booleans()):
        return [float(draw(st.integers(0, int(m)))) for _ in range(count)]
    mode = draw(st.integers(0, 2))
    if mode == 0:
        return [f32(((i * 37) % 101) / 100.0 * m) for i in range(count)]
    return [f32(draw(r4(-1.0, 2.0)) * m) for _ in range(count)]


def no_overflow(s):
    """16 bit table values do not fit in half floats."""
    if s["out"] == "16i":
        s.pop("rawHalfs", None)
        if s.get("enc") in model.ENC16:
            del s["enc"]


@st.composite
def lut1d_node(draw, din=None, dout=None, meta=False, half=None, encs=True, maps=True, cubic=True):
    din, dout = din or draw(depth), dout or draw(depth)
    s = {"t": "LUT1D", "in": din, "out": dout, "ch": draw(st.sampled_from([3, 3, 1]))}
    half = bool(half)
    s["interp"] = draw(st.sampled_from(["linear", "linear", ""] + (["cubic"] if cubic else [])))
    if half:
        s["halfDomain"] = True
        s["in"] = din = draw(st.sampled_from(FLOAT_DEPTHS))
        kind = draw(st.sampled_from(["halfid", "rand"]))
        s["vals"] = {"table": {"kind": kind, "n": 65536, "ch": s["ch"], "seed": draw(st.integers(0, 3)),
                               "scale": 1.0, "bias": 0.0}}
    else:
        k = draw(st.integers(0, 9))
        if k < 6:
            n = draw(st.integers(2, 9))
        elif k < 8:
            n = draw(st.integers(10, 70))
        else:
            n = draw(st.sampled_from([128, 256, 257, 1000, 1024, 1025, 2048, 4096, 4097]))
        s["vals"] = lutvals(draw, n * s["ch"], s["ch"], dout, n > 12)
        if maps and draw(st.integers(0, 2)) == 0:
            s["imaps"] = draw(index_maps(din, n))
    if encs and draw(st.integers(0, 4)) == 0:
        s["rawHalfs"] = True
    elif encs and draw(st.integers(0, 4)) == 0:
        s["enc"] = draw(st.sampled_from(ENCODINGS))
    no_overflow(s)
    return draw(common(s, meta))


@st.composite
def lut3d_node(draw, din=None, dout=None, meta=False, encs=True, maps=True, maxn=5, big=False):
    din, dout = din or draw(depth), dout or draw(depth)
    k = draw(st.integers(0, 9))
    if k < 3:
        n = draw(st.integers(2, 4))
        dims = [n, n, n]
    elif k < 9 and not (big and draw(st.integers(0, 40)) == 0):
        dims = [draw(st.integers(2, maxn)) for _ in range(3)]
    elif k < 9:
        dims = draw(st.sampled_from([[33, 33, 33], [23, 24, 22], [2, 129, 65], [65, 3, 70]]))
    else:
        dims = draw(st.sampled_from([[17, 17, 17], [9, 13, 11], [2, 33, 3], [20, 2, 2], [33, 5, 9]]))
    count = dims[0] * dims[1] * dims[2] * 3
    s = {"t": "LUT3D", "in": din, "out": dout, "dims": dims,
         "interp": draw(st.sampled_from(["trilinear", "tetrahedral"] * 4 + ["", "linear", "best"]))}
    s["vals"] = lutvals(draw, count, 3, dout, draw(st.booleans()) or count > 60)
    if maps and draw(st.integers(0, 2)) == 0:
        s["imaps"] = draw(index_maps(din, dims))
    if encs and draw(st.integers(0, 4)) == 0:
        s["enc"] = draw(st.sampled_from(ENCODINGS))
    no_overflow(s)
    return draw(common(s, meta))


CDL_STYLES = ["Fwd", "Rev", "FwdNoClamp", "RevNoClamp", "v1.2_Fwd", "v1.2_Rev", "noClampFwd", "noClampRev"]


@st.composite
def triple(draw, vals, lo, hi):
    """Three values; whole ones as Python integers sometimes."""
    if draw(st.integers(0, 7)) == 0:
        return [draw(st.integers(lo, hi)) for _ in range(3)]
    return [draw(vals) for _ in range(3)]


@st.composite
def cdl_node(draw, din=None, dout=None, meta=False, styles=None, full=None):
    s = {"t": "ASCCDL", "in": din or draw(depth), "out": dout or draw(depth),
         "style": draw(st.sampled_from(styles or CDL_STYLES))}
    full = draw(st.booleans()) if full is None else full
    if full or draw(st.booleans()):
        s["slope"] = draw(triple(r4(0.1, 4.0), 1, 4))
    if full or draw(st.booleans()):
        s["offset"] = draw(triple(r4(-0.5, 0.5), 0, 1))
    if full or draw(st.booleans()):
        s["power"] = draw(triple(r4(0.2, 4.0), 1, 4))
    if full or draw(st.booleans()):
        s["sat"] = draw(st.one_of(st.just(1.0), r4(0.1, 3.0), r4(0.1, 3.0), st.sampled_from([1, 2])))
    return draw(common(s, meta))


@st.composite
def cc_node(draw, meta=False):
    s = draw(cdl_node(meta=meta))
    s["t"] = "ColorCorrection"
    s["in"] = s["out"] = "16f"
    del s["style"]
    s.pop("name", None)
    return s


channel = st.sampled_from([None, None, "R", "G", "B"])


@st.composite
def gamma_node(draw, din=None, dout=None, meta=False, styles=None):
    style = draw(st.sampled_from(styles or ["basicFwd", "basicRev", "moncurveFwd", "moncurveRev"]))
    s = {"t": "Gamma", "in": din or draw(depth), "out": dout or draw(depth), "style": style}
    params = []
    for _ in range(draw(st.integers(0, 3))):
        c = draw(channel)
        if style.startswith("basic"):
            g = draw(st.one_of(r4(0.3, 4.0), st.sampled_from([1.0, 2.2, 2, 3, 2.4])))
            params.append([g, 0.0, c])
        else:
            g = draw(st.one_of(r4(1.1, 4.0), st.sampled_from([2.4, 3.0, 2, 3, 2.2])))
            o = draw(st.one_of(st.just(0.055), r4(0.01, 0.3), st.just(0.0)))
            if style == "moncurveFwd" and not styles and draw(st.integers(0, 7)) == 0:
                # odd, but defined as long as the power is a whole one
                g, o = draw(st.sampled_from([2.0, 3.0, 2])), draw(r4(-0.3, -0.01))
            params.append([g, o, c])
    s["params"] = params
    return draw(common(s, meta))


LOG_STYLES = ["log10", "log2", "antiLog10", "antiLog2", "logToLin", "linToLog"]


@st.composite
def log_node(draw, din=None, dout=None, meta=False, styles=None):
    s = {"t": "Log", "in": din or draw(depth), "out": dout or draw(depth),
         "style": draw(st.sampled_from(styles or LOG_STYLES))}
    params = []
    if s["style"] in ("logToLin", "linToLog"):
        for _ in range(draw(st.integers(0, 3))):
            white = draw(st.one_of(st.integers(400, 1000), r4(400.0, 1000.0)))
            black = draw(st.one_of(st.integers(10, 350), r4(10.0, 350.0)))
            if not styles and draw(st.integers(0, 7)) == 0:
                # not a film curve, but defined: the black reference is kept below the white one
                black = white + draw(st.sampled_from([0, 0, 1, 50]))
            params.append([draw(st.one_of(r4(0.3, 1.5), r4(0.3, 1.5), st.just(1))), white, black,
                           draw(st.one_of(r4(0.5, 2.0), r4(0.5, 2.0), st.sampled_from([1, 2]))),
                           draw(st.one_of(r4(-0.1, 0.3), r4(-0.1, 0.3), st.just(0))), draw(channel)])
    s["params"] = params
    return draw(common(s, meta))


@st.composite
def ec_node(draw, din=None, dout=None, meta=False, styles=None):
    s = {"t": "ExposureContrast", "in": din or draw(depth), "out": dout or draw(depth),
         "style": draw(st.sampled_from(styles or ["linear", "video", "log"]))}
    if draw(st.integers(0, 7)):
        # whole numbers too: a caller may pass Python integers
        s["ecp"] = [draw(st.one_of(r4(-3.0, 3.0), r4(-3.0, 3.0), st.integers(-3, 4))),
                    draw(st.one_of(r4(0.2, 3.0), r4(0.2, 3.0), st.integers(1, 3))),
                    draw(st.one_of(r4(0.05, 2.0), r4(0.05, 2.0), st.integers(1, 3)))]
    return draw(common(s, meta))


LEAVES = {"Range": range_node, "Matrix": matrix_node, "LUT1D": lut1d_node, "LUT3D": lut3d_node,
          "ASCCDL": cdl_node, "Gamma": gamma_node, "Log": log_node, "ExposureContrast": ec_node}
# values a node type is fed with, in normalised units
SPAN = {"Log": (-1.0, 1.5), "Gamma": (-1.0, 3.0), "ExposureContrast": (-1.0, 3.0)}


@st.composite
def leaf(draw, meta=False, kinds=None, cc=True, **kw):
    t = draw(st.sampled_from(kinds or (list(LEAVES) + (["ColorCorrection"] if cc else []))))
    if t == "ColorCorrection":
        return draw(cc_node(meta=meta))
    if t == "Matrix":
        return draw(matrix_node(meta=meta, n=3, **kw))
    return draw(LEAVES[t](meta=meta, **kw))


@st.composite
def group(draw, meta=False, depth_=1, max_nodes=3, **kw):
    s = {"t": "Group", "in": draw(depth), "out": draw(depth), "nodes": []}
    count = draw(st.integers(0, max_nodes)) if draw(st.integers(0, 15)) else draw(st.integers(max_nodes, max_nodes + 8))
    for _ in range(count):
        if depth_ > 0 and draw(st.integers(0, 4)) == 0:
            s["nodes"].append(draw(group(meta=meta, depth_=depth_ - 1, max_nodes=2, **kw)))
        else:
            s["nodes"].append(draw(leaf(meta=meta, **kw)))
    return draw(common(s, meta))


@st.composite
def plist(draw, meta=False, min_nodes=0, max_nodes=4, groups=True, bypass=False, **kw):
    s = {"attrs": [], "elems": [], "nodes": []}
    if meta:
        for k in ("name", "id", "inverseOf"):
            if draw(st.integers(0, 2)):
                s["attrs"].append([k, draw(attr_text)])
        if draw(st.booleans()):
            s["attrs"].append(["compCLFversion", draw(st.sampled_from([1.0, 1.2, "1.1", 2]))])
        if draw(st.integers(0, 5)) == 0:
            s["attrs"].append(["custom", draw(attr_text)])
        for _ in range(draw(st.integers(0, 3)) if draw(st.integers(0, 9)) else draw(st.integers(4, 12))):
            k = draw(st.sampled_from(["Description", "InputDescriptor", "OutputDescriptor", "Info"]))
            if k == "Info":
                s["elems"].append([k, draw(body_text), draw(body_text)])
            else:
                s["elems"].append([k, draw(body_text)])
    count = draw(st.integers(min_nodes, max_nodes))
    if draw(st.integers(0, 24)) == 0:
        count = draw(st.integers(max_nodes, max_nodes + 14))
    for _ in range(count):
        if groups and draw(st.integers(0, 5)) == 0:
            n = draw(group(meta=meta, **kw))
        else:
            n = draw(leaf(meta=meta, **kw))
        if bypass and draw(st.integers(0, 3)) == 0:
            n["bypass"] = draw(st.sampled_from([True, True, False]))
        s["nodes"].append(n)
    return s
