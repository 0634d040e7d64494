"""C21: baked CLF, csp and CTL tables reproduce the transform they sample."""
import bisect
import math
import re

from hypothesis import strategies as st

from pbt import gen, lutio, model
from pbt.core import Test
from pbt.tables import f32

RULE = ("bake: a process list, an input shaper (none, linear, log2), an output shaper (none, linear, log2), resolutions "
        "and the format (clf or csp). The baked CLF (read by the library) or csp (read by an independent parser and "
        "evaluated in float64) is run at inputs whose value after the sampled shaper is a grid point of the 3D table and "
        "compared with the list itself, limited to the output shaper's range; between samples of a log2 output shaper "
        "any value between the neighbouring ones is accepted. Other inputs must stay within the values at the corners of "
        "their cell. ctl: the program written is parsed and run by a small interpreter at the sample points. "
        "Non-trivial when the list changes a value.")
ASSUMPTIONS = ["shaper ranges are rising; log2 ranges span 1 to 16 stops",
               "points where the list gives no finite value, and cells with such a corner, are not compared",
               "comparison tolerance: precision of the format, of single precision positions in the sampled shaper, and "
               "the list's sensitivity to the last bits of its input"]


@st.composite
def shaper(draw, m, out=False):
    k = draw(st.integers(0, 4))
    if k == 0:
        return [None, 0.0, 1.0]
    if k < 3:
        if draw(st.booleans()):
            return ["linear", 0.0, float(m)]
        lo = draw(st.integers(-2000, 1000)) / 1000.0
        return ["linear", lo * m, (lo + draw(st.integers(100, 5000)) / 1000.0) * m]
    if draw(st.booleans()):
        lo = draw(st.integers(-8, 1))
        return ["log2", float(lo), float(lo + draw(st.integers(1, 8)))]
    lo = draw(st.integers(-85, 10)) / 10.0
    return ["log2", lo, lo + draw(st.integers(10, 125)) / 10.0]


@st.composite
def bake_case(draw):
    spec = draw(gen.plist(min_nodes=1, max_nodes=3, bypass=True))
    c = {"list": spec, "fmt": draw(st.sampled_from(["clf", "clf", "csp"])),
         "in": draw(shaper(model.size(spec["nodes"][0]["in"]))),
         "out": draw(shaper(model.size(spec["nodes"][-1]["out"]), True)),
         "n1": draw(st.one_of(st.integers(2, 12), st.sampled_from([16, 32, 33, 64, 256]))),
         "n3": draw(st.integers(2, 5)) if draw(st.integers(0, 59)) else draw(st.sampled_from([9, 12, 17])),
         "nout": draw(st.one_of(st.integers(2, 9), st.sampled_from([33, 100])))}
    if draw(st.integers(0, 59)) == 0:
        c["n1"], c["nout"] = draw(st.sampled_from([[1024, 2], [5, 1025], [300, 257]]))
    pts = []
    for _ in range(draw(st.integers(1, 6))):
        pts.append([draw(st.integers(0, c["n3"] - 1)) for _ in range(3)])
    c["pts"] = pts
    c["free"] = [[draw(st.integers(0, 1000)) / 1000.0 for _ in range(3)] for _ in range(draw(st.integers(0, 3)))]
    c["upper"] = draw(st.integers(0, 5)) == 0
    return c


def shaper_inv(s, g):
    if s[0] is None:
        return g
    v = s[1] + g * (s[2] - s[1])
    return 2.0 ** v if s[0] == "log2" else v


def in_range(s):
    return (0.0, 1.0) if s[0] is None else (shaper_inv(s, 0.0), shaper_inv(s, 1.0))


class Shaper(object):
    """The input shaper as a table of n samples."""

    def __init__(self, s, n):
        self.lo, self.hi = in_range(s)
        n = n if s[0] == "log2" else 2
        self.x = [self.lo + (self.hi - self.lo) * i / (n - 1.0) for i in range(n)]
        self.y = [(math.log2(v) - s[1]) / (s[2] - s[1]) for v in self.x] if s[0] == "log2" else [0.0, 1.0]
        self.y[0], self.y[-1] = 0.0, 1.0

    def inverse(self, g):
        """(x with table value g, slope of the steeper neighbouring segment)"""
        k = min(len(self.x) - 1, max(1, bisect.bisect_left(self.y, g)))
        x0, x1, y0, y1 = self.x[k - 1], self.x[k], self.y[k - 1], self.y[k]
        x = x0 + (g - y0) * (x1 - x0) / (y1 - y0)
        slope = (y1 - y0) / (x1 - x0)
        if k > 1:
            slope = max(slope, (self.y[k - 1] - self.y[k - 2]) / (self.x[k - 1] - self.x[k - 2]))
        return x, slope

    def at(self, v):
        v = min(self.hi, max(self.lo, v))
        k = min(len(self.x) - 1, max(1, bisect.bisect_left(self.x, v)))
        return self.y[k - 1] + (v - self.x[k - 1]) * (self.y[k] - self.y[k - 1]) / (self.x[k] - self.x[k - 1])


def out_limits(s, n, v, e):
    """What an output shaper of n samples may make of a value known to +-e: (lo, hi)."""
    if s[0] is None:
        return v - e, v + e
    if s[0] == "linear":
        a, b = min(s[2], max(s[1], v - e)), min(s[2], max(s[1], v + e))
        p = 2e-6 * max(abs(s[1]), abs(s[2]))
        return a - p, b + p
    out = []
    for w, rnd, sg in ((v - e, math.floor, -1), (v + e, math.ceil, 1)):
        g = (math.log2(max(w, 2.0 ** -126)) - s[1]) / (s[2] - s[1])
        # the logarithm and its scaling are single precision
        pos = min(1.0, max(0.0, g)) * (n - 1)
        pe = 2e-6 * (n - 1) * max(1.0, max(abs(s[1]), abs(s[2])) / (s[2] - s[1]))
        if abs(pos - round(pos)) < pe:
            base = round(pos)
            nxt = min(n - 1, max(0, base + sg))
            r = shaper_inv(s, base / (n - 1.0))
            r += (shaper_inv(s, nxt / (n - 1.0)) - r) * 2 * pe
        else:
            r = shaper_inv(s, rnd(pos) / (n - 1.0))
        out.append(r + sg * 4e-6 * abs(r))
    return tuple(out)


def fin(*v):
    return all(x == x and abs(x) < 1e30 for x in v)


def csp_eval(p, px):
    """Prelut, then trilinear table, in float64."""
    q = []
    for (ins, outs), v in zip(p["pre"], px):
        v = min(ins[-1], max(ins[0], v))
        k = min(len(ins) - 1, max(1, bisect.bisect_left(ins, v)))
        q.append(outs[k - 1] + (v - ins[k - 1]) * (outs[k] - outs[k - 1]) / (ins[k] - ins[k - 1]))
    s = {"t": "LUT3D", "in": "32f", "out": "32f", "dims": p["dims"], "vals": [v for r in p["rows"] for v in r],
         "interp": "trilinear"}
    return model.node(s, q)


def run_bake(case, ctx):
    sin, sout, n1, n3, nout = case["in"], case["out"], case["n1"], case["n3"], case["nout"]
    sh = Shaper(sin, n1)
    if case["fmt"] == "csp" and sin[0] and (sh.hi - sh.lo) / (n1 - 1) < 1e-5:
        return False
    grid = [[i / (n3 - 1.0), j / (n3 - 1.0), k / (n3 - 1.0)] for i in range(n3) for j in range(n3) for k in range(n3)]
    src = [shaper_inv(sin, g) for p in grid for g in p]
    e = 2.0 ** -19
    name = "out." + (case["fmt"].upper() if case["upper"] else case["fmt"])
    kw = {"lutDataFormat": "1D_3D_1D", "lutResolution1d3d1d": [n1, n3, nout], "shaperIn": sin, "shaperOut": sout,
          "lutResolution1d": 7, "lutResolution3d": 3, "inputMin": -1.0, "inputMax": 3.0}
    lo, hi = in_range(sin)
    span = max(abs(lo), abs(hi)) * 2.0 ** -22 if sin[0] == "linear" else 0.0
    # stops are single precision numbers too
    stops = max(abs(sin[1]), abs(sin[2])) * 2.0 ** -22 if sin[0] == "log2" else 0.0
    d = [abs(v) * (e + stops) + span for v in src]
    xs, slopes = [], []
    for p in case["pts"]:
        for g in p:
            x, s = sh.inverse(g / (n3 - 1.0))
            xs.append(f32(x))
            slopes.append(s)
    free = [f32(lo + (hi - lo) * t) for p in case["free"] for t in p]
    script = [["new", "s", case["list"], "top"], ["process", "s", src, 3],
              ["process", "s", [v + w for v, w in zip(src, d)], 3],
              ["process", "s", [v - w for v, w in zip(src, d)], 3],
              ["regwrite", "s", name, kw], ["get", name]]
    if case["fmt"] == "clf":
        script += [["read", "b", name, True], ["process", "b", xs + free, 3]]
    res = ctx.ok(script)
    if not res[4]:
        ctx.fail("nothing was written")
    vals = res[1]
    tol = [3 * (abs(a - v) + abs(b - v)) + 2e-6 * abs(v) if fin(a, b, v) else None
           for v, a, b in zip(vals, res[2], res[3])]
    if case["fmt"] == "clf":
        got = res[7]
    else:
        try:
            p = lutio.parse_csp(res[5]["text"])
        except lutio.Bad as err:
            ctx.fail("not a well-formed csp: %s" % err)
        if p["kind"] != "3d" or p["dims"] != [n3] * 3:
            ctx.fail("the csp holds %s %r" % (p["kind"], p["dims"]))
        got = []
        for k in range(0, len(xs + free), 3):
            got += csp_eval(p, (xs + free)[k:k + 3])
    unit = 5.1e-7 if case["fmt"] == "csp" else 1e-8
    trivial = True

    def limits(i, c, extra):
        """(lo, hi) of channel c at grid point i after the output shaper."""
        return out_limits(sout, nout, vals[i * 3 + c], tol[i * 3 + c] + extra)

    for k, px in enumerate(case["pts"]):
        i = (px[0] * n3 + px[1]) * n3 + px[2]
        # rounding of the position along each axis lets the neighbours in
        nb = []
        for a, w in enumerate((n3 * n3, n3, 1)):
            x, s = abs(xs[k * 3 + a]), slopes[k * 3 + a]
            pe = (s * max(x, abs(lo), abs(hi)) * 3e-7 + 4e-7 + stops + (s * 6e-7 if case["fmt"] == "csp" else 0)) * (n3 - 1)
            if case["fmt"] == "csp":
                pe += 1e-6 * (n3 - 1)
            for sg in (1, -1):
                if 0 <= px[a] + sg < n3:
                    nb.append((i + sg * w, min(1.0, pe)))
        for c in range(3):
            if tol[i * 3 + c] is None or any(tol[j * 3 + c] is None for j, _ in nb):
                ctx.label("not finite")
                continue
            g = got[k * 3 + c]
            v = vals[i * 3 + c]
            if v != src[i * 3 + c]:
                trivial = False
            a, b = limits(i, c, 0.0)
            slack = unit + (unit * max(abs(sout[1]), abs(sout[2])) if sout[0] == "linear" else 0.0)
            if sout[0] == "log2":
                # stored with few decimals, the shaped value carries a relative error
                slack += 1e-8 * (sout[2] - sout[1]) * 2 * max(abs(a), abs(b))
            far = 0.0
            for j, pe in nb:
                na, nbv = limits(j, c, 0.0)
                far += pe * max(abs(na - b), abs(nbv - a), abs(na - a), abs(nbv - b))
            if sout[0] == "log2":
                # interpolation happens before the output shaper, whose slope is at most its top times the span
                span_ = (sout[2] - sout[1])
                for j, pe in nb:
                    far += pe * span_ * 2.0 ** sout[2] * 0.7
            if not a - slack - far <= g <= b + slack + far:
                ctx.fail("%s: input %r (grid point %r) channel %d gives %r, the list %r (accepted %r to %r)" % (
                    case["fmt"], xs[k * 3:k * 3 + 3], px, c, g, v, a - slack - far, b + slack + far))
            ctx.label("%s in=%s out=%s" % (case["fmt"], sin[0], sout[0]))
    m = len(xs)
    for k in range(len(free) // 3):
        px = free[k * 3:k * 3 + 3]
        idx = []
        for v in px:
            at = sh.at(v) * (n3 - 1)
            idx.append(range(max(0, int(math.floor(at - 1e-3))), min(n3 - 1, int(math.ceil(at + 1e-3))) + 1))
        cell = [(a * n3 + b) * n3 + c for a in idx[0] for b in idx[1] for c in idx[2]]
        for c in range(3):
            if any(tol[j * 3 + c] is None for j in cell):
                continue
            lim = [limits(j, c, 0.0) for j in cell]
            a, b = min(x[0] for x in lim), max(x[1] for x in lim)
            slack = 2 * unit + 3e-6 * max(abs(a), abs(b), abs(sout[1]) if sout[0] == "linear" else 0,
                                          abs(sout[2]) if sout[0] == "linear" else 0)
            if not a - slack <= got[m + k * 3 + c] <= b + slack:
                ctx.fail("%s: input %r channel %d gives %r, outside the values %r to %r around it" % (
                    case["fmt"], px, c, got[m + k * 3 + c], a, b))
    return not trivial


# --------------------------------------------------------------------------
# CTL

@st.composite
def ctl_case(draw):
    spec = draw(gen.plist(min_nodes=1, max_nodes=3))
    m = model.size(spec["nodes"][0]["in"])
    one = draw(st.booleans())
    c = {"list": spec, "one": one,
         "res": draw(st.one_of(st.integers(2, 9), st.sampled_from([16, 33, 70, 300]))) if one else draw(
             st.sampled_from([2, 3, 4, 5] * 5 + [9, 12])),
         "upper": draw(st.integers(0, 5)) == 0}
    k = draw(st.integers(0, 2))
    if k == 0:
        c["min"], c["max"] = 0.0, 1.0
    elif k == 1 and m > 1:
        c["min"], c["max"] = 0.0, m
    else:
        c["min"] = draw(st.integers(-2000, 2000)) / 1000.0
        c["max"] = c["min"] + draw(st.integers(20, 9000)) / 1000.0 * m
        if draw(st.booleans()):
            c["min"] += draw(st.integers(-99999, 99999)) / 1e8
            c["max"] += draw(st.integers(100000, 199999)) / 1e8
    return c


def interpret(p, px, alpha):
    """Run the main function of the parsed CTL program."""
    defs = p["defs"]
    m = re.match(r"void\s+main\s*\(([^)]*)\)\s*\{(.*)\}\s*$", p["body"], re.S)
    lutio.need(m, "no main function")
    args = [a.split() for a in m.group(1).split(",")]
    ins = [a[-1] for a in args if a[0] == "input"]
    outs = [a[-1] for a in args if a[0] == "output"]
    lutio.need(ins == ["rIn", "gIn", "bIn", "aIn"] and outs == ["rOut", "gOut", "bOut", "aOut"],
               "parameters %r %r" % (ins, outs))
    env = dict(zip(ins, list(px) + [alpha]))

    def const(name, dims):
        lutio.need(name in defs, "%s is not defined" % name)
        lutio.need(len(defs[name]["dims"]) == dims, "%s has %d dimensions" % (name, len(defs[name]["dims"])))
        return defs[name]

    def var(name):
        lutio.need(name in env, "%s is not defined" % name)
        return env[name]
    for s in m.group(2).split(";"):
        s = re.sub(r"\s+", " ", s).strip()
        if not s:
            continue
        f = re.match(r"^(?:(float) )?(\w+) = (\w+)$", s)
        if f:
            lutio.need(f.group(1) or f.group(2) in env or f.group(2) in outs, "%s is not declared" % f.group(2))
            env[f.group(2)] = var(f.group(3))
            continue
        f = re.match(r"^(\w+) = lookup1D\( ?(\w+), (\w+), (\w+), (\w+) ?\)$", s)
        if f:
            lutio.need(f.group(1) in env, "%s is not declared" % f.group(1))
            t = const(f.group(2), 1)["vals"]
            lo, hi = const(f.group(3), 0)["vals"][0], const(f.group(4), 0)["vals"][0]
            pos = min(1.0, max(0.0, (var(f.group(5)) - lo) / (hi - lo))) * (len(t) - 1)
            i = min(len(t) - 2, int(pos))
            env[f.group(1)] = t[i] + (t[i + 1] - t[i]) * (pos - i)
            continue
        f = re.match(r"^lookup3D_f\( ?(\w+), (\w+), (\w+), (\w+), (\w+), (\w+), (\w+), (\w+), (\w+) ?\)$", s)
        lutio.need(f, "statement %r" % s)
        a = f.groups()
        t = const(a[0], 4)
        lutio.need(t["dims"][3] == 3, "table of %r" % t["dims"])
        lo, hi = const(a[1], 1)["vals"], const(a[2], 1)["vals"]
        lutio.need(len(lo) == 3 and len(hi) == 3, "limits %r %r" % (lo, hi))
        q = [(var(a[3 + c]) - lo[c]) / (hi[c] - lo[c]) for c in range(3)]
        r = model.node({"t": "LUT3D", "in": "32f", "out": "32f", "dims": t["dims"][:3], "vals": t["vals"],
                        "interp": "trilinear"}, q)
        for c in range(3):
            lutio.need(a[6 + c] in env, "%s is not declared" % a[6 + c])
            env[a[6 + c]] = r[c]
    lutio.need(all(o in env for o in outs), "an output is not set")
    return [env[o] for o in outs]


def run_ctl(case, ctx):
    one, n, lo, hi = case["one"], case["res"], case["min"], case["max"]
    x = [float(i) / (n - 1) * (hi - lo) + lo for i in range(n)]
    pts = [[v, v, v] for v in x] if one else [[a, b, c] for a in x for b in x for c in x]
    flat = [v for p in pts for v in p]
    near = [[v * (1 + s * 2.0 ** -21) for v in flat] for s in (1, -1)]
    name = "o.CTL" if case["upper"] else "o.ctl"
    kw = {"lutDataFormat": "1D" if one else "3D", "inputMin": lo, "inputMax": hi,
          "lutResolution1d": n if one else 9, "lutResolution3d": 4 if one else n}
    res = ctx.ok([["new", "s", case["list"], "top"], ["process", "s", flat, 3], ["process", "s", near[0], 3],
                  ["process", "s", near[1], 3], ["regwrite", "s", name, kw], ["get", name]])
    if not res[4]:
        ctx.fail("nothing was written")
    want, nears = res[1], res[2:4]
    if not fin(*(want + nears[0] + nears[1])):
        ctx.label("not finite")
        return False
    try:
        p = lutio.parse_ctl(res[5]["text"])
        big = max(abs(v) for v in want)
        pick = list(range(len(pts)))
        if not one and len(pick) > 40:
            pick = [(k * 37) % len(pts) for k in range(40)]
        for k in pick:
            got = interpret(p, pts[k], 0.625)
            for c in range(3):
                w = want[k * 3 + c]
                tol = 1e-6 * abs(w) + 2 * sum(abs(nn[k * 3 + c] - w) for nn in nears) + (5.1e-7 if not one else 1e-37)
                # the limits have nine decimals
                pos = (n - 1) * 4e-9 / (hi - lo) + n * 1e-14
                tol += pos * 4 * big + 1e-12 * big
                if not abs(got[c] - w) <= tol:
                    ctx.fail("the CTL program gives %r for channel %d of %r, the list %r (+- %.3g)" % (
                        got[c], c, pts[k], w, tol))
            if got[3] != 0.625:
                ctx.fail("alpha 0.625 became %r" % got[3])
        ctx.label("ctl %s" % ("1D" if one else "3D"))
    except lutio.Bad as err:
        ctx.fail("CTL program: %s" % err)
    return want != flat


def tests(tier):
    return [Test("bake", bake_case(), run_bake, 1200, 40000), Test("ctl", ctl_case(), run_ctl, 500, 15000)]
