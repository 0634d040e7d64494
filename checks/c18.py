"""C18: LUT files written from a CLF hold the transform at the sample points."""
from hypothesis import strategies as st

from pbt import gen, lutio, model
from pbt.core import Test
from pbt.tables import f32

RULE = ("A case is a process list, a format (spi1d, csp 1D, spi3d, csp 3D), a resolution and an input range. An "
        "independent parser of the format reads the file that is written; header, size, order and every entry are "
        "compared with the list's own result at the sample point, with the precision of the format plus the list's "
        "sensitivity to the last bit of the sample. The file read back through the registry is then run at the sample "
        "points. Non-trivial when the list changes the samples.")
ASSUMPTIONS = ["input ranges have at most the six decimals that the formats write and are at least 0.01 wide",
               "the range of spi3d is 0 to 1, as the format cannot hold another, for reading back",
               "tables hold finite values only: entries for which the list gives none are not compared"]


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(["spi1d", "spi1d", "csp1", "spi3d", "csp3", "csp3"]))
    spec = draw(gen.plist(min_nodes=1, max_nodes=3, bypass=True))
    d = spec["nodes"][0]["in"]
    m = model.size(d)
    c = {"list": spec, "fmt": fmt, "how": draw(st.sampled_from(["mem", "mem", "file"]))}
    if fmt in ("spi1d", "csp1"):
        c["res"] = draw(st.one_of(st.integers(2, 9), st.integers(10, 40), st.sampled_from([64, 65, 129])))
        if draw(st.integers(0, 39)) == 0:
            c["res"] = draw(st.sampled_from([257, 1000, 1024, 4097]))
    else:
        c["res"] = draw(st.integers(2, 5)) if draw(st.integers(0, 29)) else draw(st.sampled_from([10, 16, 17, 20]))
    k = draw(st.integers(0, 3))
    if k == 0:
        c["min"], c["max"] = 0.0, 1.0
    elif k == 1 and m > 1:
        c["min"], c["max"] = 0.0, m
    else:
        lo = draw(st.integers(-2000, 2000)) / 1000.0
        hi = lo + draw(st.one_of(st.integers(10, 4000), st.integers(10000, 2000000))) / 1000.0
        if draw(st.integers(0, 2)) == 0:
            # all of the six decimals the formats have
            lo = round(lo + draw(st.integers(-999, 999)) / 1e6, 6)
            hi = round(hi + draw(st.integers(1000, 1999)) / 1e6, 6)
        c["min"], c["max"] = lo, hi
    if draw(st.integers(0, 5)) == 0:
        c["ext"] = "upper"
    c["other"] = draw(st.integers(2, 50))
    return c


def points(case):
    n, lo, hi = case["res"], case["min"], case["max"]
    x = [float(i) / (n - 1) * (hi - lo) + lo for i in range(n)]
    if case["fmt"] in ("spi1d", "csp1"):
        return [[v, v, v] for v in x]
    return [[a, b, c] for a in x for b in x for c in x]


def fin(*v):
    return all(x == x and abs(x) < 1e30 for x in v)


def run(case, ctx):
    fmt, lo, hi, n = case["fmt"], case["min"], case["max"], case["res"]
    one = fmt in ("spi1d", "csp1")
    ext = fmt.rstrip("13") if fmt.startswith("csp") else fmt
    name = "out." + (ext.upper() if case.get("ext") else ext)
    pts = points(case)
    flat = [v for p in pts for v in p]
    near = [[f32(v) * (1 + s * 2.0 ** -22) for v in flat] for s in (1, -1)]
    script = [["new", "s", case["list"], "top"]]
    if case["how"] == "file":
        script += [["write", "s", "s.clf"], ["read", "s", "s.clf"]]
    kw = {"lutDataFormat": "1D" if one else "3D", "inputMin": lo, "inputMax": hi,
          "lutResolution1d": n if one else case["other"], "lutResolution3d": case["other"] if one else n}
    k = len(script)
    script += [["process", "s", flat, 3], ["process", "s", near[0], 3], ["process", "s", near[1], 3],
               ["regwrite", "s", name, kw], ["get", name], ["ls"]]
    res = ctx.ok(script)
    want, nears = res[k], res[k + 1:k + 3]
    wrote, text, files = res[k + 3], res[k + 4], res[k + 5]
    if not wrote:
        ctx.fail("%s was not written; files are %r" % (name, files))
    try:
        p = {"spi1d": lutio.parse_spi1d, "spi3d": lutio.parse_spi3d}.get(fmt, lutio.parse_csp)(text["text"])
    except lutio.Bad as e:
        ctx.fail("%s file is not a well-formed %s: %s" % (name, fmt, e))
    if p["kind"] != ("1d" if one else "3d"):
        ctx.fail("a %s table was asked for, the file holds %s" % ("1D" if one else "3D", p["kind"]))
    if fmt == "spi1d" and [abs(a - b) <= 5.1e-7 for a, b in zip(p["range"], (lo, hi))] != [True, True]:
        ctx.fail("From is %r, the range asked for %r" % (p["range"], (lo, hi)))
    if fmt.startswith("csp"):
        for pre in p["pre"]:
            if len(pre[0]) != len(pre[1]) or any(abs(a - b) > 5.1e-7 for a, b in zip(
                    (pre[0][0], pre[0][-1], pre[1][0], pre[1][-1]), (lo, hi, 0.0, 1.0))):
                ctx.fail("prelut %r does not map %r..%r to 0..1" % (pre, lo, hi))
            # whatever its length it has to be the straight line
            for a, b in zip(*pre):
                if abs((a - lo) / (hi - lo) - b) > 1e-5 + 1e-6 / (hi - lo):
                    ctx.fail("prelut %r is not linear" % (pre,))
    if len(p["rows"]) != len(pts) or (not one and p["dims"] != [n, n, n]):
        ctx.fail("%d entries (%r), expected %d" % (len(p["rows"]), p.get("dims"), len(pts)))
    abs_tol = 5.1e-7 if fmt.startswith("csp") else 1e-37
    trivial = True
    tols = []
    for i, row in enumerate(p["rows"]):
        for c in range(3):
            w = want[i * 3 + c]
            a, b = nears[0][i * 3 + c], nears[1][i * 3 + c]
            if not fin(w, a, b):
                tols.append(None)
                continue
            tol = abs_tol + 1e-6 * abs(w) + 2 * (abs(a - w) + abs(b - w))
            tols.append(tol)
            if w != flat[i * 3 + c]:
                trivial = False
            if not abs(row[c] - w) <= tol:
                ctx.fail("entry %d channel %d is %r, the list gives %r at %r (+- %.3g)" % (
                    i, c, row[c], w, pts[i], tol))
    # reading back
    if (fmt != "spi3d" or (lo, hi) == (0.0, 1.0)) and None not in tols:
        back = ctx.ok([["put", name, text["text"]], ["regread", "b", name], ["process", "b", flat, 3]])
        if not back[1]:
            ctx.fail("the file written is not read back")
        got = back[2]
        # the position in the table is rounded
        pos = (n - 1) * 2.0 ** -21 * max(1.0, max(abs(lo), abs(hi)) / (hi - lo)) + (n - 1) * (
            1.1e-6 / (hi - lo) if round(lo, 6) != lo or round(hi, 6) != hi else 0.0)
        rows = p["rows"]
        for i in range(len(pts)):
            for c in range(3):
                nb = [rows[j][c] for j in neighbours(i, n, one)]
                d = max(abs(rows[i][c] - v) for v in nb)
                big = max(abs(v) for v in nb + [rows[i][c]])
                tol = pos * 3 * d + 2e-6 * big + 1e-9
                if not abs(got[i * 3 + c] - rows[i][c]) <= tol:
                    ctx.fail("read back, %r channel %d gives %r; the table says %r (+- %.3g)" % (
                        pts[i], c, got[i * 3 + c], rows[i][c], tol))
        ctx.label("read back")
    ctx.label(fmt)
    return not trivial


def neighbours(i, n, one):
    if one:
        return [j for j in (i - 1, i + 1) if 0 <= j < n]
    r, g, b = i // (n * n), i // n % n, i % n
    out = []
    for k in ((-1, 0, 0), (1, 0, 0), (0, -1, 0), (0, 1, 0), (0, 0, -1), (0, 0, 1)):
        q = (r + k[0], g + k[1], b + k[2])
        if all(0 <= v < n for v in q):
            out.append((q[0] * n + q[1]) * n + q[2])
    return out


def tests(tier):
    return [Test("sampled file", case(), run, 1200, 30000)]
