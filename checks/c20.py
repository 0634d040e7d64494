"""C20: inverses of 1D LUT files undo the LUT."""
import math
import struct

from hypothesis import strategies as st

from checks import c19
from pbt import gen, lutio
from pbt.core import Test
from pbt.tables import f32, half_to_float

RULE = ("A case is an spi1d file (one or three columns, rising, possibly with flat stretches at any place), an input "
        "range, an inverse method and values: table entries, outputs between entries, values outside. Each result must "
        "be an input that the table maps to the value, allowing for single precision and, for the half-domain and the "
        "resampled method, for one step of the method's own grid (none where the table is straight); outside the outputs it must "
        "be the end of the input range. Non-trivial when a value inside the outputs is used.")
ASSUMPTIONS = ["columns rise by at least a thousandth of the largest entry, or not at all, from entry to entry",
               "csp and spi3d files have no inverse: asking for it must fail"]


@st.composite
def column(draw, n, flat):
    lo = draw(st.sampled_from([0.0, 0.0, 0.1, -0.125, -0.5, 0.25]))
    v, out = lo, []
    for i in range(n):
        out.append(f32(v))
        if flat and draw(st.integers(0, 2)) == 0:
            continue
        v += draw(st.one_of(st.integers(20, 400), st.sampled_from([20, 50, 1000]))) / 1000.0
    if out[0] == out[-1]:
        out[-1] = f32(out[-1] + 0.5)
    return out


@st.composite
def case(draw, methods=("index", "index", "resampled")):
    method = draw(st.sampled_from(methods))
    n = draw(st.one_of(st.integers(2, 8), st.integers(9, 24), st.integers(2, 24), st.integers(25, 70))) if method != "half" else draw(st.integers(2, 6))
    ch = draw(st.sampled_from([1, 3, 3])) if method != "half" else draw(st.sampled_from([1, 1, 1, 3]))
    flat = draw(st.integers(0, 2)) == 0
    same = draw(st.integers(0, 3)) == 0
    cols = []
    for c in range(ch):
        cols.append(cols[0] if same and cols else draw(column(n, flat)))
    k = draw(st.integers(0, 3))
    if k == 0:
        rng = [0.0, 1.0]
    elif k == 1:
        rng = [0.0, draw(st.sampled_from([2.0, 16.0, 0.5]))]
    else:
        lo = draw(st.integers(-2000, 2000)) / 1000.0
        rng = [lo, lo + draw(st.integers(100, 9000)) / 1000.0]
    vals = []
    lo, hi = min(c[0] for c in cols), max(c[-1] for c in cols)
    for _ in range(draw(st.integers(20, 50) if method == "half" else st.integers(1, 10))):
        for c in range(3):
            col = cols[c % ch]
            k = draw(st.integers(0, 9))
            if k < 3:
                v = col[draw(st.integers(0, n - 1))]
            elif k < 5:
                v = f32(lo + (hi - lo) * draw(st.integers(0, 2 * n - 1)) / (2 * n - 1.0))
            elif k < 8:
                v = f32(col[0] + (col[-1] - col[0]) * draw(st.integers(0, 1000)) / 1000.0)
            else:
                v = f32(draw(st.sampled_from([lo - 0.5, hi + 0.5, lo - 0.01, hi + 0.01, col[0] - 0.001,
                                              col[-1] + 0.001, -5.0, 50.0])))
            vals.append(0.0 if abs(v) < 1e-6 else v)
    return {"method": method, "cols": cols, "range": rng, "vals": vals,
            "style": draw(st.sampled_from([{}, {"blank": True, "order": True}, {"numbers": "exp", "crlf": True}]))}


def halves(y):
    """Adjacent half values around y."""
    u = struct.unpack("<H", struct.pack("<e", y))[0]
    h = half_to_float(u)
    if h == y:
        return h, h
    # neighbours of h in the order of the bit patterns
    away = half_to_float(u + 1) if (u & 0x7fff) < 0x7bff else h
    near = half_to_float(u - 1) if u & 0x7fff else -half_to_float(1) * math.copysign(1, y)
    a = sorted([near, h, away])
    lo = max([v for v in a if v <= y] or [a[0]])
    hi = min([v for v in a if v >= y] or [a[-1]])
    return lo, hi


def inv_span(col, a, b):
    """Smallest and largest position in the column whose value lies in [a, b] (ends held)."""
    n = len(col)
    # smallest position with value >= a
    if a <= col[0]:
        lo = 0.0
    elif a > col[-1]:
        lo = n - 1.0
    else:
        i = min(k for k in range(n) if col[k] >= a)
        lo = i - 1 + (a - col[i - 1]) / (col[i] - col[i - 1])
    if b >= col[-1]:
        hi = n - 1.0
    elif b < col[0]:
        hi = 0.0
    else:
        i = max(k for k in range(n) if col[k] <= b)
        hi = i + (b - col[i]) / (col[i + 1] - col[i])
    if a > col[-1]:
        # beyond the outputs: anything that gives the last output
        lo = float(min(k for k in range(n) if col[k] == col[-1]))
    if b < col[0]:
        hi = float(max(k for k in range(n) if col[k] == col[0]))
    return lo, hi


def run(case, ctx):
    cols, (rlo, rhi), vals = case["cols"], case["range"], case["vals"]
    n, ch = len(cols[0]), len(cols)
    rows = [[c[i] for c in cols] for i in range(n)]
    m = case["method"]
    kw = {"inverse": True, "inversesUseIndexMaps": m == "index", "inversesUseHalfDomain": m == "half"}
    script = [["put", "a.spi1d", lutio.write_spi1d([rlo, rhi], rows, case["style"], 1)],
              ["regread", "a", "a.spi1d", kw], ["process", "a", vals, 3]]
    if m != "half":
        script += [["write", "a", "a.clf"], ["read", "b", "a.clf"], ["process", "b", vals, 3]]
    res = ctx.ok(script)
    if not res[1]:
        ctx.fail("not read")
    lo, hi = min(c[0] for c in cols), max(c[-1] for c in cols)
    step = (hi - lo) / (2 * n - 1)
    inside = False
    for k, y in enumerate(vals):
        col = cols[k % 3 % ch]
        e = 2.0 ** -20 * max(abs(y), abs(lo), abs(hi)) + 1e-7
        a, b = y - e, y + e
        if m == "half":
            if abs(y) > 60000:
                continue
            h = halves(y)
            a, b = h[0] - e, h[1] + e
            if y > col[-1] - abs(h[1] - h[0]) - e:
                if y > col[-1] + e:
                    continue        # beyond its outputs this method goes on
                b = max(b, col[-1])
        elif m == "resampled":
            # interpolating the inverse is exact where the table is straight (or has ended) within a step
            w = 1.01 * step
            if lo < y < hi and any(y - w < v < y + w for v in col if lo < v < hi):
                a, b = a - w, b + w
        inside = inside or col[0] < y < col[-1]
        p, q = inv_span(col, a, b)
        p, q = [rlo + (rhi - rlo) * v / (n - 1) for v in (p, q)]
        tol = 2e-6 * max(abs(rlo), abs(rhi)) + 1e-6 * (rhi - rlo)
        if m == "half":
            tol += 2.0 ** -10 * max(abs(p), abs(q))
            if y > col[-1] - e - (halves(y)[1] - halves(y)[0]):
                # the next half may lie beyond the table
                q += (halves(y)[1] - halves(y)[0] + 2 * e) / (col[-1] - col[-2]) * (rhi - rlo) / (n - 1) \
                    if col[-1] > col[-2] else rhi
        for j, g in [("", res[2][k])] + ([(" (written to CLF)", res[5][k])] if m != "half" else []):
            if not p - tol <= g <= q + tol:
                ctx.fail("%s inverse%s: value %r channel %d gave %r, which the table %r over %r does not map to it "
                         "(expected %r to %r)" % (m, j, y, k % 3, g, col, case["range"], p, q))
    ctx.label(m + (" flat" if any(c[i] == c[i + 1] for c in cols for i in range(n - 1)) else ""))
    return inside


@st.composite
def no_inverse(draw):
    c = draw(c19.case().filter(lambda c: c["fmt"] != "spi1d"))
    return {"fmt": c["fmt"], "text": c19.text_of(c, {}), "im": draw(st.booleans()), "hd": draw(st.booleans()),
            "upper": draw(st.booleans()), "interp": draw(st.sampled_from(["linear", "tetrahedral"])),
            "by": draw(st.sampled_from(["list", "nodes", "cli"]))}


def run_no_inverse(c, ctx):
    """There is no inverse of 3D tables and csp files: they must not be read forward instead."""
    ext = c["fmt"][:3] if c["fmt"][:3] == "csp" else c["fmt"]
    path = "f." + (ext.upper() if c["upper"] else ext)
    kw = {"inversesUseIndexMaps": c["im"], "inversesUseHalfDomain": c["hd"], "interpolation": c["interp"]}
    put = ["put", path, c["text"]]
    if not ctx.ok([put, ["regread", "a", path, kw], ["nodes", "a"]])[1]:
        ctx.fail("%s is not read" % path)
    kw["inverse"] = True
    if c["by"] == "cli":
        r = ctx.run([put, ["cli", "lut2clf", ["-l", path, "-c", "out.clf", "--inverse"]], ["ls"]])[2]["ok"]
        if r != [path]:
            ctx.fail("the inverse of %s was asked for, files: %r" % (path, r))
    else:
        r = ctx.run([put, ["regread" if c["by"] == "list" else "regnodes", "b", path, kw],
                     ["process", "b", [0.25, 0.5, 0.75], 3]])
        if "exc" not in r[1] and r[1]["ok"]:
            ctx.fail("the inverse of %s was asked for, read: %r, which gives %r" % (path, r[1], r[2]))
    ctx.label("no inverse of " + c["fmt"])
    return True


def tests(tier):
    return [Test("no inverse", no_inverse(), run_no_inverse, 120, 3000),
            Test("inverse", case(), run, 2500, 80000),
            Test("half-domain inverse", case(("half",)), run, 35, 2000)]
