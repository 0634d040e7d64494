"""C30: tables of any shape are written, and lists sampled, through the format classes."""
import math

from hypothesis import strategies as st

from checks.c21 import interpret, shaper_inv
from pbt import gen, lutio, model
from pbt.core import Test
from pbt.tables import f32

RULE = ("tables: a table of its own (1D with one to four channels and any number of them used, 3D and shaper/3D/shaper "
        "with an own size along each axis) is given to the writers of the format classes. An independent parser (for CTL: "
        "an interpreter of the program) must find the same table, size and range in the file, and the file read back by "
        "the library must give the entries at the grid points. samplers: the sampling functions are called with an own "
        "size along each axis and any shapers, and compared with the list at the sample points. Non-trivial when the "
        "sizes differ, or not all channels are used, or shapers are used.")
ASSUMPTIONS = ["two components are not written to csp and CTL files, which have one or three, and not read back from "
               "spi1d, as a LUT1D node has one or three columns",
               "the range of spi3d is 0 to 1, as the format cannot hold another",
               "numbers are compared with the decimals that each format writes"]

BIG = 30000.0


@st.composite
def value(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-5, 2.0 / 3.0, 12345.678]))
    if k < 5:
        return f32(draw(st.integers(-2000, 4000)) / 1024.0 + draw(st.integers(0, 999)) / 1e6)
    return f32(draw(st.integers(-10 ** 6, 10 ** 6)) / 997.0)


@st.composite
def rng(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return [0.0, 1.0]
    lo = draw(st.integers(-4000, 4000)) / 1000.0
    hi = lo + draw(st.integers(20, 8000)) / 1000.0
    if k == 3:
        lo, hi = round(lo + draw(st.integers(-999, 999)) / 1e6, 6), round(hi + draw(st.integers(0, 999)) / 1e6, 6)
    return [lo, hi]


@st.composite
def dims3(draw):
    return [draw(st.integers(2, 5)) for _ in range(3)]


@st.composite
def ramp(draw, n):
    """n rising entries of three columns."""
    cols = []
    for _ in range(3):
        v, col = draw(st.integers(-100, 100)) / 128.0, []
        for _ in range(n):
            col.append(v)
            v += draw(st.integers(1, 200)) / 128.0
        cols.append(col)
    if draw(st.booleans()):
        cols = [[(v - c[0]) / (c[-1] - c[0]) for v in c] for c in cols]
    return [f32(round(cols[c][i], 6)) for i in range(n) for c in range(3)]


@st.composite
def tables_case(draw):
    kind = draw(st.sampled_from(["spi1d", "spi1d", "csp1", "ctl1", "spi3d", "csp3", "ctl3", "csp13", "clf"]))
    c = {"kind": kind}
    if kind in ("spi1d", "csp1", "ctl1"):
        n = draw(st.one_of(st.integers(2, 9), st.sampled_from([16, 33, 100])))
        if draw(st.integers(0, 29)) == 0:
            n = 300
        ch = draw(st.sampled_from([1, 3, 3, 4] + ([2] if kind == "spi1d" else [])))
        comp = draw(st.sampled_from([None, 1, 3, 4] + ([2] if kind == "spi1d" else [])))
        if kind != "spi1d" and min(3, 3 if comp is None else comp, ch) == 2:
            comp = 1
        c.update(n=n, ch=ch, comp=comp, range=draw(rng()),
                 vals=draw(st.lists(value(), min_size=n * ch, max_size=n * ch)))
        if ch == 3 and comp in (None, 3) and draw(st.booleans()):
            c["via"] = "write1D"
        return c
    c["dims"] = d = draw(dims3())
    k = d[0] * d[1] * d[2] * 3
    if draw(st.booleans()):
        # all different
        s = draw(st.integers(1, 1000)) / 8192.0
        c["vals"] = [f32(s * (i + 1)) for i in range(k)]
    else:
        c["vals"] = draw(st.lists(value(), min_size=k, max_size=k))
    c["range"] = draw(rng())
    if kind == "spi3d":
        c["range"] = [0.0, 1.0]
    if kind in ("csp13", "clf"):
        n = draw(st.integers(2, 9)) if draw(st.integers(0, 9)) else 70
        c["nin"], c["in"] = n, draw(st.one_of(st.none(), ramp(n)))
        if c["in"] is None:
            c["range"] = [0.0, 1.0]
        m = draw(st.integers(2, 7))
        c["nout"], c["out"] = m, None
        if draw(st.booleans()):
            c["out"] = draw(ramp(m))
            # the table is looked up in the output shaper
            if draw(st.booleans()):
                c["vals"] = [abs(v) % 1.0 for v in c["vals"]]
        c["outrange"] = draw(rng())
    if draw(st.booleans()):
        c["via"] = "write1D3D1D" if kind in ("csp13", "clf") else "write3D"
    elif kind == "csp13":
        c["out"] = None
    return c


CLS = {"spi": "LutFormatSPI", "csp": "LutFormatCSP", "ctl": "LutFormatCTL", "clf": "LutFormatCLF"}
FN = {"spi1d": "writeSPI1D", "csp1": "writeCSP1D", "ctl1": "writeCTL1D", "spi3d": "writeSPI3D", "csp3": "writeCSP3D",
      "ctl3": "writeCTL3D", "csp13": "writeCSP1D3D", "clf": "writeCLF1D3D1D"}


def near(a, b, dec):
    """b is the number a, written with dec decimals (None: all there are)."""
    e = 1e-7 * abs(a) if dec is None else 0.51 * 10.0 ** -dec + 1e-7 * abs(a)
    return abs(a - b) <= e + 1e-37


def grid(d):
    return [[i, j, k] for i in range(d[0]) for j in range(d[1]) for k in range(d[2])]


def close_rows(ctx, what, rows, want, dec):
    if len(rows) != len(want) or any(len(r) != len(w) for r, w in zip(rows, want)):
        ctx.fail("%s holds %d entries of %r values, expected %d of %d" % (
            what, len(rows), sorted(set(len(r) for r in rows)), len(want), len(want[0])))
    for i, (r, w) in enumerate(zip(rows, want)):
        for c in range(len(w)):
            if not near(w[c], r[c], dec):
                ctx.fail("%s: entry %d channel %d is %r, given %r" % (what, i, c, r[c], w[c]))


def run_tables(case, ctx):
    kind, (lo, hi) = case["kind"], case["range"]
    fmt, via = kind[:3], case.get("via")
    name = "o." + (kind if fmt == "spi" else fmt)
    f = {"file": name}
    one = kind in ("spi1d", "csp1", "ctl1")
    shaped = kind in ("csp13", "clf")
    if one:
        n, ch, comp = case["n"], case["ch"], case["comp"]
        used = min(3, 3 if comp is None else comp, ch)
        want = [[case["vals"][i * ch + j] for j in range(used)] for i in range(n)]
        if via:
            args = [f, case["vals"], n, lo, hi]
        else:
            args = [f, lo, hi, case["vals"], n, ch] + ([] if comp is None else [comp])
    else:
        d = case["dims"]
        t = {"dims": d, "vals": case["vals"]}
        want = [case["vals"][k:k + 3] for k in range(0, len(case["vals"]), 3)]
        if shaped:
            args = [f, case["in"], case["nin"], lo, hi, t, d]
            if via or kind == "clf":
                args += [case["out"], case["nout"]] + case["outrange"]
        else:
            args = [f, t, d, lo, hi] if via else [f, lo, hi, t, d]
    if shaped and case["out"] and kind == "csp13":
        # no place for the output shaper in the file: applied to the table
        s = {"t": "LUT1D", "in": "32f", "out": "32f", "ch": 3, "vals": case["out"], "interp": "linear"}
        want = [list(model.node(s, w)) for w in want]
    script = [["fmtcall", CLS[fmt], via or FN[kind], args], ["get", name]]
    if one:
        pts = [lo + (hi - lo) * i / (n - 1.0) for i in range(n)]
        px = [v for v in pts for _ in range(3)]
    else:
        d = case["dims"]
        g = [[lo + (hi - lo) * i / (m - 1.0) for i in range(m)] for m in d]
        px = [g[a][p[a]] for p in grid(d) for a in range(3)]
    reads = fmt in ("spi", "csp") and not shaped and not (one and used == 2)
    if reads:
        script += [["regread", "b", name], ["process", "b", px, 3]]
    if kind == "clf":
        nodes = []
        if case["in"]:
            if (lo, hi) != (0.0, 1.0):
                nodes.append({"t": "Range", "in": "16f", "out": "16f",
                              "lim": {"minIn": lo, "maxIn": hi, "minOut": 0.0, "maxOut": 1.0}})
            nodes.append({"t": "LUT1D", "in": "16f", "out": "16f", "ch": 3, "vals": case["in"],
                          "interp": "linear"})
        nodes.append({"t": "LUT3D", "in": "16f", "out": "16f", "dims": d, "vals": case["vals"], "interp": "trilinear"})
        if case["out"]:
            nodes.append({"t": "LUT1D", "in": "16f", "out": "16f", "ch": 3, "vals": case["out"],
                          "interp": "linear"})
        px = px + [lo + (hi - lo) * ((k * 37) % 101) / 90.0 for k in range(60)]
        script += [["new", "a", {"nodes": nodes}], ["process", "a", px, 3], ["read", "b", name, True],
                   ["process", "b", px, 3], ["nodes", "b"]]
    res = ctx.ok(script)
    if not res[0]:
        ctx.fail("the writer did not report success")
    if res[1] is None:
        ctx.fail("nothing was written")
    text = res[1]["text"]
    ctx.label(kind + (" " + via if via else ""))
    try:
        if kind == "spi1d":
            p = lutio.parse_spi1d(text)
            if [near(a, b, 6) for a, b in zip(case["range"], p["range"])] != [True] * 2:
                ctx.fail("From is %r, given %r" % (p["range"], case["range"]))
            close_rows(ctx, kind, p["rows"], want, None)
        elif kind == "spi3d":
            p = lutio.parse_spi3d(text)
            if p["dims"] != d:
                ctx.fail("the file has size %r, given %r" % (p["dims"], d))
            close_rows(ctx, kind, p["rows"], want, None)
        elif fmt == "csp":
            p = lutio.parse_csp(text)
            if p["kind"] != ("1d" if one else "3d") or p["dims"] != ([n] if one else d):
                ctx.fail("the file is %s of size %r, given %r" % (p["kind"], p["dims"], [n] if one else d))
            if one and used == 1:
                want = [w * 3 for w in want]
            close_rows(ctx, kind, p["rows"], want, 5.9 if shaped and case["out"] else 6)
            for c, (ins, outs) in enumerate(p["pre"]):
                s = case.get("in")
                m = case["nin"] if s else 2
                ys = s[c::3] if s else [0.0, 1.0]
                xs = [lo + (hi - lo) * k / (m - 1.0) for k in range(m)]
                if not s and len(ins) != 2:
                    # any straight line will do
                    xs = ins
                    ys = [(v - lo) / (hi - lo) for v in ins]
                if len(ins) != len(xs) or not all(near(a, b, 6) for a, b in zip(xs + ys, ins + outs)) or \
                        not (near(lo, ins[0], 6) and near(hi, ins[-1], 6)):
                    ctx.fail("prelut %d is %r -> %r, given %r -> %r" % (c, ins, outs, xs, ys))
        elif fmt == "ctl":
            p = lutio.parse_ctl(text)
            tabs = [v for v in p["defs"].values() if len(v["dims"]) == (1 if one else 4) and v["dims"] != [3]
                    or one and v["dims"]]
            if one and sorted(t["dims"][0] for t in tabs) != [n] * used:
                ctx.fail("tables of %r values, expected %d of %d" % ([t["dims"] for t in tabs], used, n))
            if not one and [t["dims"] for t in tabs] != [d + [3]]:
                ctx.fail("tables of size %r, given %r" % ([t["dims"] for t in tabs], d))
            if not one:
                v = tabs[0]["vals"]
                close_rows(ctx, kind, [v[k:k + 3] for k in range(0, len(v), 3)], want, 6)
            big = max(abs(x) for w in want for x in w)
            for k in range(len(px) // 3):
                got = interpret(p, px[3 * k:3 * k + 3], 0.625)
                w = want[k] * 3 if one and used == 1 else want[k]
                for c in range(3):
                    m = n if one else max(d)
                    tol = 5.2e-7 + 1e-6 * abs(w[c]) + m * 3e-9 / (hi - lo) * 4 * big
                    if abs(got[c] - w[c]) > tol:
                        ctx.fail("the CTL program gives %r for channel %d of %r, the entry is %r" % (
                            got[c], c, px[3 * k:3 * k + 3], w[c]))
                if got[3] != 0.625:
                    ctx.fail("alpha 0.625 became %r" % got[3])
    except lutio.Bad as e:
        ctx.fail("not a well-formed %s: %s" % (fmt, e))
    if reads:
        if not res[2]:
            ctx.fail("the file is not read back")
        ns = [n] * 3 if one else d
        pos = [(m - 1) * (2.0 ** -21 * max(1.0, max(abs(lo), abs(hi)) / (hi - lo))) for m in ns]
        unit = 5.1e-7 if fmt == "csp" else 0.0
        idx = [[i] * 3 for i in range(n)] if one else grid(d)
        at = {tuple(p_): w for p_, w in zip(idx, want)}
        for k, p_ in enumerate(idx):
            for c in range(3):
                w = want[k][c % len(want[k])]
                far = 0.0
                for a in range(1 if one else 3):
                    for s in (1, -1):
                        q = tuple(v + s if one or b == a else v for b, v in enumerate(p_))
                        if q in at:
                            far += pos[a] * 2 * (abs(at[q][c % len(at[q])] - w) + 2 * unit)
                if abs(res[3][3 * k + c] - w) > unit + 2e-6 * abs(w) + far + 1e-9:
                    ctx.fail("read back, %r gives %r in channel %d, the entry is %r" % (
                        px[3 * k:3 * k + 3], res[3][3 * k + c], c, w))
        ctx.label("read back")
    if kind == "clf":
        a, b, ns = res[3], res[5], res[6]
        if ns["types"] != [{"LUT1D": "LUT1D", "LUT3D": "LUT3D", "Range": "Range"}[x["t"]] for x in nodes]:
            ctx.label("other nodes")
        for k, (v, w) in enumerate(zip(a, b)):
            if v == w or v != v and w != w:
                continue
            if abs(v - w) > 1e-6 * max(1.0, abs(v)):
                ctx.fail("the file maps channel %d of %r to %r, the tables to %r" % (
                    k % 3, px[k // 3 * 3:k // 3 * 3 + 3], w, v))
    if one:
        return used != ch or n > 2
    return len(set(d)) > 1 or bool(shaped and (case["in"] or case["out"]))


# --------------------------------------------------------------------------

@st.composite
def shaper(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return [None, 0.0, 1.0]
    if k < 3:
        lo = draw(st.integers(-2000, 1000)) / 1000.0
        return ["linear", lo, lo + draw(st.integers(100, 5000)) / 1000.0]
    lo = draw(st.integers(-85, 10)) / 10.0
    return ["log2", lo, lo + draw(st.integers(10, 125)) / 10.0]


@st.composite
def sampler_case(draw):
    c = {"list": draw(gen.plist(min_nodes=1, max_nodes=3)), "which": draw(st.sampled_from(["1D", "3D", "3D", "1D3D1D"]))}
    m = model.size(c["list"]["nodes"][0]["in"])
    c["range"] = draw(st.one_of(rng(), st.just([0.0, m])))
    c["n"] = draw(st.one_of(st.integers(2, 9), st.sampled_from([17, 64])))
    c["dims"] = draw(dims3()) if draw(st.integers(0, 29)) else draw(st.sampled_from([[9, 17, 10], [17, 2, 11]]))
    c["in"], c["out"] = draw(shaper()), draw(shaper())
    c["nout"] = draw(st.integers(2, 9))
    return c


def fin(*v):
    return all(x == x and abs(x) < 1e30 for x in v)


def shape(s, v):
    """Forward shaper."""
    if s[0] is None:
        return v
    if s[0] == "log2":
        v = math.log2(max(v, 2.0 ** -126))
    return min(1.0, max(0.0, (v - s[1]) / (s[2] - s[1])))


def run_sampler(case, ctx):
    which, d, n = case["which"], case["dims"], case["n"]
    lo, hi = case["range"]
    sin, sout = case["in"], case["out"]
    if which == "1D":
        pts = [[lo + (hi - lo) * i / (n - 1.0)] * 3 for i in range(n)]
        args = [n, lo, hi]
    elif which == "3D":
        pts = [[lo + (hi - lo) * p[a] / (d[a] - 1.0) for a in range(3)] for p in grid(d)]
        args = [d, lo, hi]
    else:
        pts = [[shaper_inv(sin, p[a] / (d[a] - 1.0)) for a in range(3)] for p in grid(d)]
        args = [[n, d, case["nout"]], sin, sout]
    flat = [v for p in pts for v in p]
    e = 2.0 ** -22
    if which == "1D3D1D":
        e = 2.0 ** -19 + (max(abs(sin[1]), abs(sin[2])) * 2.0 ** -22 if sin[0] == "log2" else 0.0)
    span = max(abs(sin[1]), abs(sin[2])) * 2.0 ** -22 if which == "1D3D1D" and sin[0] == "linear" else 0.0
    near_ = [[f32(v) + s * (abs(v) * e + span) for v in flat] for s in (1, -1)]
    res = ctx.ok([["new", "s", case["list"], "top"], ["process", "s", flat, 3], ["process", "s", near_[0], 3],
                  ["process", "s", near_[1], 3], ["sample", "sample" + which, "s", args]])
    want, nears, got = res[1], res[2:4], res[4]
    ctx.label("sample" + which + (" in=%s out=%s" % (sin[0], sout[0]) if which == "1D3D1D" else ""))
    s3 = got
    if which == "1D3D1D":
        s_in, mn, mx, s3, s_out, omn, omx = got
        a, b = (0.0, 1.0) if sin[0] is None else (shaper_inv(sin, 0.0), shaper_inv(sin, 1.0))
        oa, ob = (0.0, 1.0) if sout[0] is None else (shaper_inv(sout, 0.0), shaper_inv(sout, 1.0))
        for g, w, what in ((mn, a, "smallest input"), (mx, b, "largest input"), (omn, oa, "smallest output"),
                           (omx, ob, "largest output")):
            if abs(g - w) > 1e-6 * abs(w):
                ctx.fail("%s is %r, expected %r" % (what, g, w))
        if (s_in is None) != (sin[0] is None) or (s_out is None) != (sout[0] is None):
            ctx.fail("shapers %r %r give samples %r %r" % (sin, sout, s_in, s_out))
        for what, s, m, vals, f in (("input", sin, n, s_in, lambda i, m: shape(sin, a + (b - a) * i / (m - 1.0))),
                                    ("output", sout, case["nout"], s_out, lambda i, m: shaper_inv(sout, i / (m - 1.0)))):
            if vals is None:
                continue
            if len(vals) != 3 * m:
                ctx.fail("%s shaper of %d values, expected %d" % (what, len(vals), 3 * m))
            for k, g in enumerate(vals):
                w = f(k // 3, m)
                big = max(abs(s[1]), abs(s[2]))
                tol = 2e-6 * abs(w) * max(1.0, big) + 1e-6 * (max(big, 1.0) / min(1.0, s[2] - s[1]))
                if what == "output" and s[0] == "log2":
                    tol = 2e-6 * abs(w) * max(1.0, big)
                if abs(g - w) > tol:
                    ctx.fail("entry %d of the %s shaper is %r, expected %r" % (k // 3, what, g, w))
    if len(s3) != len(want):
        ctx.fail("%d samples, expected %d" % (len(s3), len(want)))
    trivial = True
    for k, (g, w) in enumerate(zip(s3, want)):
        if not fin(w, nears[0][k], nears[1][k]):
            continue
        tol = 3 * (abs(nears[0][k] - w) + abs(nears[1][k] - w)) + 2e-6 * abs(w)
        if w != flat[k]:
            trivial = False
        if which == "1D3D1D" and sout[0]:
            x, y = shape(sout, w - tol), shape(sout, w + tol)
            t = 2e-6 * max(1.0, max(abs(sout[1]), abs(sout[2])) / (sout[2] - sout[1])) * 2
            x, y = x - t, y + t
        else:
            x, y = w - tol, w + tol
        if not x <= g <= y:
            ctx.fail("sample %r, channel %d (list at %r: %r) is %r, expected %r to %r" % (
                k // 3, k % 3, pts[k // 3], w, g, x, y))
    return not trivial and (which == "1D" or len(set(d)) > 1 or which == "1D3D1D")


def tests(tier):
    return [Test("tables", tables_case(), run_tables, 1500, 50000),
            Test("samplers", sampler_case(), run_sampler, 800, 25000)]
