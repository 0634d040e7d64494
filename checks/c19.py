"""C19: spi1d, spi3d and csp files are converted to what they define."""
import bisect
import itertools
import math
import re

from hypothesis import strategies as st

from pbt import gen, lutio, model
from pbt.core import Test
from pbt.tables import f32

RULE = ("A case is the content of an spi1d, spi3d or csp file, a layout for it (blank lines, metadata, number notation, "
        "white space, header or entry order, line ends, capitalisation of the extension), an interpolation and pixels. "
        "An independent writer makes the file; the list that the registry gives for it is compared with a float64 "
        "evaluation of the format's definition. Non-trivial when pixels change.")
ASSUMPTIONS = ["input ranges and prelut inputs are rising and not narrower than a thousandth of their magnitude",
               "a csp prelut of more than two points is resampled by the library: between its resampling points the "
               "result may lie anywhere the prelut goes within one step (of 2n points), unless it is straight there",
               "the three header lines of an spi3d file are its first three lines",
               "comparison tolerance of a few single precision rounding steps of the input, range and table"]


@st.composite
def layout(draw):
    s = {}
    for k in ("blank", "crlf", "space", "order"):
        if draw(st.integers(0, 2)) == 0:
            s[k] = True
    if draw(st.booleans()):
        s["numbers"] = draw(st.sampled_from(["exp", "EXP", "plus", "fixed", "dot", "int", "mixed"]))
    s["meta"] = draw(st.sampled_from(["empty", "text", "none"]))
    s["trail"] = draw(st.sampled_from(["one", "one", "none", "many"]))
    return s


@st.composite
def in_range(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return [0.0, 1.0]
    if k == 1:
        return [0.0, draw(st.sampled_from([2.0, 10.0, 16.291, 0.5, 100.0]))]
    if k == 2:
        return [draw(st.sampled_from([-0.125, -1.0, 0.002, 0.25])), 1.0]
    lo = draw(st.integers(-3000, 3000)) / 1000.0
    return [lo, lo + draw(st.integers(20, 9000)) / 1000.0]


def num(draw):
    return draw(st.one_of(st.integers(-500, 2000).map(lambda i: i / 1000.0),
                          st.sampled_from([0.0, 1.0, 0.5, 1e-5, 64.0, 0.333333333]),
                          st.floats(-2.0, 4.0, allow_nan=False, allow_subnormal=False).map(f32)))


def rows_of(draw, n, ch):
    if n * ch > 80:
        from pbt import tables
        v = tables.values({"table": {"kind": draw(st.sampled_from(["rand", "mono"])), "n": n, "ch": ch,
                                     "seed": draw(st.integers(0, 99)), "scale": 1.0, "bias": 0.0}})
    else:
        v = [num(draw) for _ in range(n * ch)]
    return [v[i * ch:(i + 1) * ch] for i in range(n)]


@st.composite
def prelut(draw, lo=None, hi=None):
    n = draw(st.sampled_from([2, 2, 3, 3, 4, 5, 8, 2, 3, 4, 21]))
    if lo is None:
        lo, hi = draw(in_range())
    inner = sorted(draw(st.lists(st.integers(1, 19), min_size=n - 2, max_size=n - 2, unique=True)))
    ins = [lo] + [lo + (hi - lo) * i / 20.0 for i in inner] + [hi]
    k = draw(st.integers(0, 3))
    if k == 0:
        outs = [float(i) / (n - 1) for i in range(n)]
    elif k == 1:
        outs = sorted(draw(st.integers(0, 1000)) / 1000.0 for _ in range(n))
    else:
        outs = [draw(st.integers(-200, 1200)) / 1000.0 for _ in range(n)]
    return [ins, outs]


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(["spi1d", "spi1d", "spi3d", "csp1", "csp3", "csp3"]))
    c = {"fmt": fmt, "style": draw(layout()), "seed": draw(st.integers(0, 10 ** 6)),
         "ext": draw(st.sampled_from(["lower", "lower", "upper", "title"])), "kw": {}}
    if fmt in ("spi1d", "csp1"):
        n = draw(st.one_of(st.integers(2, 8), st.sampled_from([17, 33, 100, 257])))
        if draw(st.integers(0, 29)) == 0:
            n = draw(st.sampled_from([1000, 1024, 1025, 4096, 4097]))
        c["dims"] = [n]
        c["rows"] = rows_of(draw, n, 3 if fmt == "csp1" else draw(st.sampled_from([3, 3, 1])))
        interp = ["linear", "cubic"]
    else:
        c["dims"] = [draw(st.integers(2, 5)) for _ in range(3)] if draw(st.integers(0, 3)) else [
            draw(st.integers(2, 6))] * 3
        if draw(st.integers(0, 29)) == 0:
            c["dims"] = draw(st.sampled_from([[17, 17, 17], [16, 18, 17], [2, 33, 17], [20, 3, 21]]))
        c["rows"] = rows_of(draw, c["dims"][0] * c["dims"][1] * c["dims"][2], 3)
        interp = ["trilinear", "tetrahedral", "tetrahedral", "linear", "best", "nearest"]
    if draw(st.integers(0, 2)):
        c["kw"]["interpolation"] = draw(st.sampled_from(interp))
    if fmt == "spi1d":
        c["range"] = draw(in_range())
        lo, hi = c["range"]
    elif fmt == "spi3d":
        lo, hi = 0.0, 1.0
    else:
        k = draw(st.integers(0, 4))
        if k == 0:
            r = draw(in_range())
            c["pre"] = [[list(r), [0.0, 1.0]] for _ in range(3)]
        elif k < 3:
            r = draw(in_range())
            c["pre"] = [draw(prelut(*r)) for _ in range(3)]
        else:
            c["pre"] = [draw(prelut()) for _ in range(3)]
        lo = min(p[0][0] for p in c["pre"])
        hi = max(p[0][-1] for p in c["pre"])
    n = draw(st.integers(1, 8))
    stride = draw(st.sampled_from([3, 3, 4]))
    res = 2 * max(len(p[0]) for p in c["pre"]) if "pre" in c else (c["dims"][0])
    vals = []
    for _ in range(n):
        for ch in range(stride):
            k = draw(st.integers(0, 9))
            if k < 5:
                t = draw(st.integers(0, res - 1)) / (res - 1.0)
            elif k < 8:
                t = draw(st.integers(0, 1000)) / 1000.0
            else:
                t = draw(st.sampled_from([-0.5, 1.5, -1e-4, 1.0001, 0.0, 1.0]))
            vals.append(f32(lo + (hi - lo) * t))
    c["vals"], c["stride"] = [0.0 if abs(v) < 1e-7 else v for v in vals], stride
    return c


def table1(rows, c, pos):
    n = len(rows)
    pos = min(n - 1.0, max(0.0, pos))
    i = min(n - 2, int(math.floor(pos)))
    f = pos - i
    k = c if len(rows[0]) == 3 else 0
    return rows[i][k] * (1 - f) + rows[i + 1][k] * f


def span1(rows, c, a, b):
    """Smallest and largest table value for positions of [a, b]."""
    n = len(rows)
    k = c if len(rows[0]) == 3 else 0
    v = [table1(rows, c, a), table1(rows, c, b)]
    v += [rows[i][k] for i in range(max(0, int(math.ceil(a))), min(n - 1, int(math.floor(b))) + 1)]
    return min(v), max(v)


def pre_at(pre, x):
    ins, outs = pre
    if x <= ins[0]:
        return outs[0]
    if x >= ins[-1]:
        return outs[-1]
    k = bisect.bisect_right(ins, x)
    t = (x - ins[k - 1]) / (ins[k] - ins[k - 1])
    return outs[k - 1] * (1 - t) + outs[k] * t


def pre_span(pre, a, b):
    v = [pre_at(pre, a), pre_at(pre, b)] + [o for i, o in zip(*pre) if a < i < b]
    return min(v), max(v)


def lut3(case):
    kind = case["kw"].get("interpolation", "linear")
    return {"t": "LUT3D", "in": "16f", "out": "16f", "dims": case["dims"],
            "vals": [v for r in case["rows"] for v in r],
            "interp": "tetrahedral" if kind == "tetrahedral" else "trilinear"}


def box3(case, spans):
    """Smallest and largest entry of the cells that a box of normalised coordinates touches."""
    d = case["dims"]
    idx = []
    for (a, b), n in zip(spans, d):
        lo = int(math.floor(min(1.0, max(0.0, a)) * (n - 1) - 1e-4))
        hi = int(math.ceil(min(1.0, max(0.0, b)) * (n - 1) + 1e-4))
        idx.append(range(max(0, lo), min(n - 1, hi) + 1))
    sel = [case["rows"][(i * d[1] + j) * d[2] + k] for i in idx[0] for j in idx[1] for k in idx[2]]
    return [(min(r[c] for r in sel), max(r[c] for r in sel)) for c in range(3)]


def bounds(case, px):
    """Lower and upper limit of the result for each component of a pixel."""
    fmt, dims = case["fmt"], case["dims"]
    rel = 2.0 ** -21
    spans = []
    tight = True
    for c in range(3):
        v = px[c]
        if fmt == "spi1d":
            lo, hi = case["range"]
            e = rel * max(abs(v), abs(lo), abs(hi))
            spans.append(((v - e - lo) / (hi - lo), (v + e - lo) / (hi - lo)))
        elif fmt == "spi3d":
            spans.append((v - rel * abs(v), v + rel * abs(v)))
        else:
            pre = case["pre"]
            lo, hi = min(p[0][0] for p in pre), max(p[0][-1] for p in pre)
            e = rel * max(abs(v), abs(lo), abs(hi))
            n = 2 * max(len(p[0]) for p in pre)
            step = (hi - lo) / (n - 1)
            # resampling is exact where the prelut has no corner within a step; the ends of the whole range are samples
            w = 1.01 * step
            if lo < v < hi and any(lo < i < hi and v - w < i < v + w for i in pre[c][0]):
                e += w
                tight = False
            a, b = pre_span(pre[c], v - e, v + e)
            m = rel * max(abs(x) for x in pre[c][1])
            spans.append((a - m, b + m))
    spans = [(a - 2e-7, b + 2e-7) for a, b in spans]
    if len(dims) == 1:
        return [span1(case["rows"], c, a * (dims[0] - 1), b * (dims[0] - 1)) for c, (a, b) in enumerate(spans)], tight
    if not tight or case["kw"].get("interpolation") in ("best", "nearest"):
        # whatever it is, it does not leave the cell
        return box3(case, spans), False
    s = lut3(case)
    out = None
    for corner in itertools.product((0, 0.5, 1), repeat=3):
        q = [a + (b - a) * t for (a, b), t in zip(spans, corner)]
        r = model.node(s, q)
        out = [(x, x) for x in r] if out is None else [(min(a, x), max(b, x)) for (a, b), x in zip(out, r)]
    # the corners are the extremes up to the curvature of the interpolation inside a tiny box
    return out, True


def text_of(case, style):
    fmt = case["fmt"]
    if fmt == "spi1d":
        return lutio.write_spi1d(case["range"], case["rows"], style, case["seed"])
    if fmt == "spi3d":
        return lutio.write_spi3d(case["dims"], case["rows"], style, case["seed"])
    return lutio.write_csp("1D" if fmt == "csp1" else "3D", case["pre"], case["dims"], case["rows"], style, case["seed"])


def run(case, ctx):
    fmt = case["fmt"]
    ext = "csp" if fmt.startswith("csp") else fmt
    name = "lut." + {"lower": ext, "upper": ext.upper(), "title": ext.title()}[case["ext"]]
    vals, stride = case["vals"], case["stride"]
    res = ctx.ok([["put", name, text_of(case, case["style"])], ["regread", "a", name, case["kw"]],
                  ["process", "a", vals, stride], ["nodes", "a"], ["write", "a", "a.clf"], ["read", "b", "a.clf"],
                  ["process", "b", vals, stride], ["put", "plain." + ext, text_of(case, {})],
                  ["regread", "p", "plain." + ext, case["kw"]], ["process", "p", vals, stride], ["get", "a.clf"]])
    if not res[1]:
        ctx.fail("%s was not read" % name)
    got, back, plain = res[2], res[6], res[9]
    if got != plain:
        for i, (a, b) in enumerate(zip(got, plain)):
            if not abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9:
                ctx.fail("value %d is %r, in the plain layout %r; layout %r" % (i, a, b, case["style"]))
    for p in range(len(vals) // stride):
        px = vals[p * stride:(p + 1) * stride]
        lim, tight = bounds(case, px)
        ctx.label("exact" if tight else "between resampling points")
        for c in range(3):
            a, b = lim[c]
            tol = 2e-6 * max(abs(a), abs(b)) + 1e-7
            for what, g, more in (("", got, 0.0), (" (written to CLF)", back, 2e-6 * max(abs(a), abs(b)) + 1e-7)):
                if not a - tol - more <= g[p * stride + c] <= b + tol + more:
                    ctx.fail("%s%s: pixel %r channel %d gave %r, expected %r to %r" % (
                        fmt, what, px, c, g[p * stride + c], a, b))
        for c in range(3, stride):
            want = px[c]
            # only the range node limits extra channels
            if got[p * stride + c] != want and fmt == "spi3d":
                ctx.fail("extra channel %r became %r" % (want, got[p * stride + c]))
    want = case["kw"].get("interpolation", "linear")
    want = want if len(case["dims"]) == 1 else {"linear": "trilinear"}.get(want, want)

    last = re.findall(r"<LUT[13]D\b[^>]*>", res[10]["text"])[-1]
    m = re.search(r'interpolation="([^"]*)"', last)
    if (m.group(1) if m else "linear" if len(case["dims"]) == 1 else "trilinear") != want:
        ctx.fail("interpolation %r asked for, the node is %s" % (want, last))
    ctx.label(fmt)
    return got != vals


def tests(tier):
    return [Test("foreign files", case(), run, 3000, 80000)]
