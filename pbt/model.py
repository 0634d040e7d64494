"""Reference model of CLF process nodes, written from the format's definition.

Works on node specifications (the JSON dictionaries of pbt/gen.py), in float64,
one pixel at a time, and knows nothing about the implementation's classes.
"""
import bisect
import itertools
import math

from . import tables
from .tables import f16, f32, half_to_float

U = 2.0 ** -22          # relative slack for single precision arithmetic
FLOAT_MIN = 1.1754943508222875e-38
DEPTH_MAX = {"8i": 255.0, "10i": 1023.0, "12i": 4095.0, "16i": 65535.0}


def size(depth):
    return DEPTH_MAX.get(depth, 1.0)


def clamp(x, lo=0.0, hi=1.0):
    return lo if x < lo else hi if x > hi else x


def fpow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return math.inf


# --------------------------------------------------------------------------
# What a file stores

ENC16 = ("integer16bit", "hex16bit")
ENC32 = ("integer32bit", "hex32bit")
ENC64 = ("integer64bit", "hex64bit")


def stored_values(vals, enc="string", raw=False):
    """The array values that reading a written array must give."""
    if raw or enc in ENC16:
        return [f16(v) for v in vals]
    if enc in ENC32:
        return [f32(v) for v in vals]
    if enc in ENC64:
        return list(vals)
    return [f32(float("%.9f" % v)) for v in vals]


def through_file(spec):
    """The specification a node has after being written to a file and read back."""
    s = dict(spec)
    if "vals" in s:
        s["vals"] = stored_values(tables.values(s["vals"]), s.get("enc", "string"), s.get("rawHalfs", False))
    if s["t"] == "Group":
        s["nodes"] = [through_file(n) for n in s["nodes"]]
    return s


# --------------------------------------------------------------------------
# Single nodes

def _range(s, px):
    bi, bo = size(s["in"]), size(s["out"])
    lim = s.get("lim", {})
    d = 1 if s.get("defaultRange") else 0
    mi = lim["minIn"] / bi if "minIn" in lim else (0.0 if d else None)
    xi = lim["maxIn"] / bi if "maxIn" in lim else (1.0 if d else None)
    mo = lim["minOut"] / bo if "minOut" in lim else (0.0 if d else None)
    xo = lim["maxOut"] / bo if "maxOut" in lim else (1.0 if d else None)
    clamped = s.get("style", "") in ("", "clamp")
    out, mag = [], []
    for v in px:
        v = v / bi
        m = abs(v)
        if None not in (mi, xi, mo, xo):
            k = (xo - mo) / (xi - mi)
            m = max(abs(v * k), abs(mo), abs(mi * k))
            v = mo + (v - mi) * k
            if clamped:
                v = min(xo, max(mo, v))
        elif mi is not None and mo is not None:
            m = max(m, abs(mi), abs(mo))
            v = v + mo - mi
            if clamped:
                v = max(mo, v)
        elif xi is not None and xo is not None:
            m = max(m, abs(xi), abs(xo))
            v = v + xo - xi
            if clamped:
                v = min(xo, v)
        out.append(v * bo)
        mag.append(m * bo)
    return out, mag


def _matrix(s, px):
    rows, cols = s["dims"][0], s["dims"][1]
    m = tables.values(s["vals"])
    out, mag = list(px), [0.0] * len(px)
    for i in range(rows):
        terms = [m[i * cols + j] * px[j] for j in range(rows)]
        if cols == rows + 1:
            terms.append(m[i * cols + rows])
        out[i] = math.fsum(terms)
        mag[i] = math.fsum(abs(t) for t in terms) * 2
    return out, mag


def index_map(m, v):
    ins, outs = m
    if v != v or v in (math.inf, -math.inf):
        return v
    if v <= ins[0]:
        return outs[0]
    if v >= ins[-1]:
        return outs[-1]
    k = bisect.bisect_left(ins, v)
    lo, hi = k - 1, k
    t = (v - ins[lo]) / (ins[hi] - ins[lo])
    return outs[lo] + t * (outs[hi] - outs[lo])


def _entry(vals, ch, i, c):
    return vals[i * ch + (c if ch == 3 else 0)]


_HALVES = [half_to_float(u) for u in range(0x7c00)]     # 0 .. 65504 ascending


def half_lookup(vals, ch, v, c):
    """Piecewise linear between the entries of adjacent half values."""
    if v != v:
        return _entry(vals, ch, 31745, c)
    neg = math.copysign(1.0, v) < 0
    base = 32768 if neg else 0
    a = abs(v)
    if a >= 65520.0:
        return _entry(vals, ch, base + 31744, c)
    if a >= 65504.0:
        return _entry(vals, ch, base + 31743, c)
    k = bisect.bisect_right(_HALVES, a) - 1
    t = (a - _HALVES[k]) / (_HALVES[k + 1] - _HALVES[k])
    v0 = _entry(vals, ch, base + k, c)
    if t == 0.0:
        return v0
    v1 = _entry(vals, ch, base + k + 1, c)
    return (1.0 - t) * v0 + t * v1


def lut1d_lookup(vals, n, ch, x, c):
    if x != x or x in (math.inf, -math.inf):
        return x
    pos = clamp(x * (n - 1), 0.0, n - 1.0)
    k = int(math.floor(pos))
    t = pos - k
    v0 = _entry(vals, ch, k, c)
    if t == 0.0:
        return v0
    return (1.0 - t) * v0 + t * _entry(vals, ch, k + 1, c)


def _lut1d(s, px, eps=(0.0, 0.0, 0.0)):
    vals, ch = tables.view(s["vals"]), s["ch"]
    n = len(vals) // ch
    out, mag = list(px), [0.0] * len(px)
    top = tables.largest(vals) if n <= 5000 else None
    for c in range(min(3, len(px))):
        v = px[c]
        maps = s.get("imaps") or []
        if maps:
            v = index_map(maps[c] if len(maps) > 1 else maps[0], v) / float(n - 1)
        else:
            v = v / size(s["in"])
        if eps[c]:
            v = v * (1.0 + eps[c]) + eps[c] * 1e-6
        if s.get("halfDomain"):
            out[c] = half_lookup(vals, ch, v, c)
        else:
            out[c] = lut1d_lookup(vals, n, ch, v, c)
        mag[c] = min(top, abs(out[c]) + 1.0) if top is not None and top == top else abs(out[c])
    return out, mag


def _lut3d(s, px, eps=(0.0, 0.0, 0.0)):
    vals = tables.view(s["vals"])
    d = s["dims"]
    maps = s.get("imaps") or []
    out, mag = list(px), [0.0] * len(px)
    cell, frac = [], []
    for c in range(3):
        v = px[c]
        if maps:
            v = index_map(maps[c] if len(maps) > 1 else maps[0], v) / float(d[c] - 1)
        else:
            v = v / size(s["in"])
        if eps[c]:
            v = v * (1.0 + eps[c]) + eps[c] * 1e-6
        pos = clamp(v) * (d[c] - 1)
        k = min(int(math.floor(pos)), max(0, d[c] - 2))
        cell.append(k)
        frac.append(pos - k)

    def at(off):
        idx = [min(cell[a] + off[a], d[a] - 1) for a in range(3)]
        i = (idx[0] * d[1] + idx[1]) * d[2] + idx[2]
        return vals[i * 3:i * 3 + 3]

    acc = [0.0] * 3
    scale = [0.0] * 3
    if s.get("interp", "trilinear") == "tetrahedral":
        # walk from the low corner to the high corner along the axes in order of decreasing fraction
        order = sorted(range(3), key=lambda a: -frac[a])
        corner = [0, 0, 0]
        weights = [1.0 - frac[order[0]], frac[order[0]] - frac[order[1]],
                   frac[order[1]] - frac[order[2]], frac[order[2]]]
        points = [list(corner)]
        for a in order:
            corner[a] = 1
            points.append(list(corner))
        for w, p in zip(weights, points):
            if w == 0.0:
                continue        # also when the entry is infinite
            e = at(p)
            for c in range(3):
                acc[c] += w * e[c]
                scale[c] = max(scale[c], abs(e[c]))
    else:
        for p in itertools.product((0, 1), repeat=3):
            w = 1.0
            for a in range(3):
                w *= frac[a] if p[a] else 1.0 - frac[a]
            if w == 0.0:
                continue
            e = at(p)
            for c in range(3):
                acc[c] += w * e[c]
                scale[c] = max(scale[c], abs(e[c]))
    out[:3] = acc
    mag[:3] = [4 * x for x in scale]
    return out, mag


LUMA = (0.2126, 0.7152, 0.0722)


def _cdl(s, px):
    if len(px) < 3:
        return list(px), [0.0] * len(px)
    cc = s["t"] == "ColorCorrection"
    bi = 1.0 if cc else size(s["in"])
    bo = 1.0 if cc else size(s["out"])
    style = "Fwd" if cc else s["style"]
    slope, offset, power = s.get("slope", [1.0] * 3), s.get("offset", [0.0] * 3), s.get("power", [1.0] * 3)
    sat = s.get("sat", 1.0)
    out, mag = list(px), [0.0] * len(px)
    v = [px[i] / bi for i in range(3)]
    if style in ("Fwd", "v1.2_Fwd"):
        g = [fpow(clamp(v[i] * slope[i] + offset[i]), power[i]) for i in range(3)]
        luma = sum(LUMA[i] * g[i] for i in range(3))
        r = [clamp(luma + sat * (g[i] - luma)) for i in range(3)]
        m = [max(abs(sat), 1.0) * 2] * 3
    elif style in ("FwdNoClamp", "noClampFwd"):
        t = [v[i] * slope[i] + offset[i] for i in range(3)]
        g = [t[i] if t[i] < 0 else fpow(t[i], power[i]) for i in range(3)]
        luma = sum(LUMA[i] * g[i] for i in range(3))
        r = [luma + sat * (g[i] - luma) for i in range(3)]
        m = [max(abs(sat), 1.0) * 2 * max(abs(x) for x in g)] * 3
    elif style in ("Rev", "v1.2_Rev"):
        g = [clamp(x) for x in v]
        luma = sum(LUMA[i] * g[i] for i in range(3))
        o = [clamp(luma + (g[i] - luma) / sat) for i in range(3)]
        r = [clamp((fpow(o[i], 1.0 / power[i]) - offset[i]) / slope[i]) for i in range(3)]
        m = [max(1.0, abs(1.0 / slope[i]) * (1.0 + abs(offset[i]))) for i in range(3)]
    elif style in ("RevNoClamp", "noClampRev"):
        luma = sum(LUMA[i] * v[i] for i in range(3))
        o = [luma + (v[i] - luma) / sat for i in range(3)]
        g = [x if x < 0 else fpow(x, 1.0 / power[i]) for i, x in enumerate(o)]
        r = [(g[i] - offset[i]) / slope[i] for i in range(3)]
        m = [abs(1.0 / slope[i]) * (abs(g[i]) + abs(offset[i])) for i in range(3)]
    else:
        raise ValueError(style)
    for i in range(3):
        out[i] = r[i] * bo
        mag[i] = m[i] * bo
    return out, mag


def _gamma_params(s):
    g, o = [1.0] * 3, [0.0] * 3
    for gv, ov, ch in s["params"]:
        for i in (range(3) if ch is None else ["RGB".index(ch)]):
            g[i], o[i] = float(gv), float(ov)
    return g, o


def _gamma(s, px):
    gs, os_ = _gamma_params(s)
    bi, bo = size(s["in"]), size(s["out"])
    out, mag = list(px), [0.0] * len(px)
    for i in range(3):
        v, g, o = px[i] / bi, gs[i], os_[i]
        m = 0.0
        if s["style"] == "basicFwd":
            r = fpow(max(0.0, v), g)
        elif s["style"] == "basicRev":
            r = fpow(max(0.0, v), 1.0 / g)
        elif o == 0.0:
            # nothing to begin a straight line with
            r = v if g == 1.0 else fpow(max(0.0, v), g if s["style"] == "moncurveFwd" else 1.0 / g)
        else:
            # the "monitor curve": a power function with a straight line near black
            xb = o / (g - 1.0)
            yb = fpow(g * o / ((g - 1.0) * (1.0 + o)), g)
            k = yb / xb
            if s["style"] == "moncurveFwd":
                r = v * k if v <= xb else fpow(max(0.0, (v + o) / (1.0 + o)), g)
            else:
                r = v / k if v <= yb else (1.0 + o) * fpow(v, 1.0 / g) - o
                m = o + 1.0
        out[i] = r * bo
        mag[i] = max(abs(r), m) * bo
    return out, mag


def _log_params(s):
    p = [[0.6, 685.0, 95.0, 1.0, 0.0] for _ in range(3)]
    for q in s["params"]:
        for i in (range(3) if q[5] is None else ["RGB".index(q[5])]):
            p[i] = [float(x) for x in q[:5]]
    return p


def _log(s, px):
    ps = _log_params(s)
    bi, bo = size(s["in"]), size(s["out"])
    out, mag = list(px), [0.0] * len(px)
    for i in range(3):
        v = px[i] / bi
        style = s["style"]
        m = 0.0
        if style == "log10":
            r = math.log10(max(v, FLOAT_MIN))
        elif style == "log2":
            r = math.log(max(v, FLOAT_MIN), 2.0)
        elif style == "antiLog10":
            r = fpow(10.0, v)
        elif style == "antiLog2":
            r = fpow(2.0, v)
        else:
            g, white, black, hi, sh = ps[i]
            lrb = fpow(10.0, min(-0.00001, (black - white) * 0.002 / g))
            gain = (hi - sh) / (1.0 - lrb)
            if style == "logToLin":
                e = fpow(10.0, (1023.0 * v - white) * 0.002 / g)
                r = (e - lrb) * gain + sh
                m = max(abs(e * gain), abs(lrb * gain), abs(sh))
            else:
                e = lrb + (v - sh) / gain
                r = (white + math.log10(max(FLOAT_MIN, e)) * g / 0.002) / 1023.0
                m = max(abs(r), abs(white) / 1023.0)
                # cancellation in e
                er = (abs(lrb) + abs(v / gain) + abs(sh / gain)) * 1e-15
                m += (math.log10(max(FLOAT_MIN, e) + er) - math.log10(max(FLOAT_MIN, e))) * g / 0.002 / 1023.0 / U
        out[i] = r * bo
        mag[i] = max(abs(r), m) * bo
    return out, mag


def _ec(s, px):
    e, c, p = [float(x) for x in (s.get("ecp") or [0.0, 1.0, 1.0])]
    bi, bo = size(s["in"]), size(s["out"])
    out, mag = list(px), [0.0] * len(px)
    for i in range(3):
        v = px[i] / bi
        m = 0.0
        if s["style"] == "linear":
            r = p * fpow(max(0.0, fpow(2.0, e) * v / p), c)
        elif s["style"] == "video":
            w = 1.0 / 1.83
            r = fpow(p, w) * fpow(max(0.0, v * fpow(fpow(2.0, e) / p, w)), c)
        else:
            k = 0.6 / 2.046
            q = k * math.log10(p / 0.9) + 685.0 / 1023.0
            r = (v + e * k * math.log10(2.0) - q) * c + q
            m = (abs(v) + abs(e) + abs(q)) * max(1.0, abs(c)) + abs(q)
        out[i] = r * bo
        mag[i] = max(abs(r), m) * bo
    return out, mag


def _user(s, px):
    bi, bo = size(s["in"]), size(s["out"])
    if not s["process"]:
        return list(px), [abs(v) for v in px]
    out, mag = list(px), [0.0] * len(px)
    for i in range(3):
        out[i] = (px[i] / bi * s["scale"] + s["bias"]) * bo
        mag[i] = (abs(px[i] / bi * s["scale"]) + abs(s["bias"])) * bo
    return out, mag


NODES = {"User": _user, "Range": _range, "Matrix": _matrix, "LUT1D": _lut1d, "LUT3D": _lut3d, "ASCCDL": _cdl,
         "ColorCorrection": _cdl, "Gamma": _gamma, "Log": _log, "ExposureContrast": _ec}


def node(spec, px):
    """Exact value of one pixel after one (leaf) node."""
    return NODES[spec["t"]](spec, px)[0]


def expect(spec, px):
    """(values, tolerances) of one pixel after one leaf node.

    The tolerance covers single precision: a relative perturbation of the input
    and of the largest intermediate quantity.
    """
    f = NODES[spec["t"]]
    base, mag = f(spec, px)
    tol = []
    for b, m in zip(base, mag):
        m = max(m, abs(b)) if b == b and abs(b) != math.inf else 0.0
        tol.append(2 * U * m + 1e-37)
    n = len(px)
    if spec["t"] in ("LUT1D", "LUT3D"):
        # the position in the table is itself a rounded quantity
        axes = [(1, 1, 1)] if spec["t"] == "LUT1D" else [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
        for a in axes:
            for sgn in (2 * U, -2 * U):
                o = f(spec, px, [x * sgn for x in a])[0]
                for k in range(n):
                    d = abs(o[k] - base[k])
                    if d == d and d != math.inf:
                        tol[k] += d
        return base, tol
    groups = [[j] for j in range(n)] if spec["t"] in ("Matrix", "LUT3D", "ASCCDL", "ColorCorrection") and n <= 8 \
        else [list(range(n))]
    for g in groups:
        for sgn in (1.0, -1.0):
            q = list(px)
            for j in g:
                q[j] = q[j] * (1.0 + sgn * U)
            o = f(spec, q)[0]
            for k in range(n):
                d = abs(o[k] - base[k])
                if d == d and d != math.inf:
                    tol[k] += d
    return base, tol


def close(got, want, tol):
    if want != want:
        return got != got
    if got != got:
        return False
    if abs(want) > 3.4028e38:
        return got == want or (abs(got) > 3.4e38 and (got > 0) == (want > 0))
    if abs(got) == math.inf:
        return False
    return abs(got - want) <= tol


def check_pixels(ctx, spec, vals, stride, got, what=""):
    """Compare a processed buffer with the model; ctx.fail on a difference."""
    stride = stride or len(vals)
    if len(got) != len(vals):
        ctx.fail("%s: %d values in, %d values out" % (what, len(vals), len(got)))
    for p in range(len(vals) // stride):
        px = vals[p * stride:(p + 1) * stride]
        base, tol = expect(spec, px)
        for c in range(stride):
            g = got[p * stride + c]
            if not close(g, base[c], tol[c]):
                ctx.fail("%s %s: pixel %d %r channel %d gave %r, expected %r (+- %.3g)" % (
                    what, spec["t"], p, px, c, g, base[c], tol[c]))


# --------------------------------------------------------------------------
# Lists

def is_on(v):
    return v not in (None, False, "False", "false", "0")


def flatten(nodes, refs=None, autodesk=True):
    """The leaf nodes that processing a list of nodes comes down to.

    refs maps the path of a reference to the nodes of the file it refers to.
    """
    out = []
    for i, n in enumerate(nodes):
        if is_on(n.get("bypass")) and autodesk:
            if 0 < i < len(nodes) - 1:
                a, b = nodes[i - 1]["out"], nodes[i + 1]["in"]
                if size(a) != size(b):
                    out.append({"t": "Range", "in": a, "out": b, "style": "noClamp", "lim": {}})
        elif n["t"] == "Group":
            out.extend(flatten(n["nodes"], refs, autodesk))
        elif n["t"] == "Reference":
            out.extend(flatten((refs or {}).get(n.get("path"), []), refs, autodesk))
        else:
            out.append({k: v for k, v in n.items() if k != "bypass"})
    return out


def check_steps(ctx, flat, vals, stride, steps, what=""):
    """Each value list of steps must follow from the one before by the node in between."""
    prev = vals
    n = stride or len(vals)
    checked = 0
    for k, s in enumerate(flat):
        cur = steps[k]
        if len(cur) != len(prev):
            ctx.fail("%s: node %d (%s) turned %d values into %d" % (what, k, s["t"], len(prev), len(cur)))
        for p in range(len(prev) // n):
            px = prev[p * n:(p + 1) * n]
            if any(v != v or abs(v) > 1e9 for v in px[:3]):
                continue
            if any(v != v or abs(v) == math.inf for v in px[3:]):
                continue
            checked += 1
            check_pixels(ctx, s, px, n, cur[p * n:(p + 1) * n], "%s node %d" % (what, k))
        prev = cur
    return checked
