"""C23: filtering an image applies the CLF to every pixel."""
import math

from hypothesis import strategies as st

from pbt import gen, model
from pbt.core import Test
from pbt.tables import f16, f32

RULE = ("A case is an image (8, 10, 12 or 16 bit integer, half or float; any size from one pixel to hundreds of rows; "
        "three to five channels; metadata), a CLF, a requested output depth, a number of processes, and how the filter is "
        "called (library, command line, script). Image input and output go through a stand-in for OpenImageIO that keeps "
        "images in memory. Every output value is compared with the list's result for the pixel, converted between bit "
        "depths in float64. Non-trivial when the image has at least two pixels and a value changes.")
ASSUMPTIONS = ["OpenImageIO is not installed: a stand-in with the interface of version 1.8 is used",
               "images have finite values; 10 and 12 bit images are 16 bit ones with oiio:BitsPerSample",
               "a float value within single precision rounding of half a code value may be rounded either way"]

KINDS = {"8i": ("uint8", 255), "10i": ("uint16", 1023), "12i": ("uint16", 4095), "16i": ("uint16", 65535),
         "16f": ("half", 1), "32f": ("float", 1)}
BITS = {"8i": 8, "10i": 10, "12i": 12, "16i": 16}
NAMES = ["R", "G", "B", "A", "Z"]


@st.composite
def case(draw, threads=(1,), max_nodes=3):
    d = draw(gen.depth)
    spec = draw(gen.plist(min_nodes=0 if draw(st.integers(0, 9)) == 0 else 1, max_nodes=max_nodes, bypass=True))
    if spec["nodes"] and spec["nodes"][0]["t"] != "ColorCorrection" and draw(st.integers(0, 2)) == 0:
        spec["nodes"][0]["in"] = d
    ch = draw(st.sampled_from([3, 3, 4, 4, 5]))
    k = draw(st.integers(0, 9))
    if k < 6:
        w, h = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    elif k < 8:
        w, h = draw(st.integers(6, 40)), draw(st.integers(1, 3))
    elif draw(st.integers(0, 9)) == 0:
        w, h = draw(st.sampled_from([[130, 4], [257, 2], [30, 20], [10, 70], [1025, 1]]))
    else:
        w, h = draw(st.integers(1, 2)), draw(st.sampled_from([20, 100, 101, 102, 103, 201, 202, 250]))
    typ, top = KINDS[d]
    n = w * h * ch
    base = []
    for _ in range(min(n, 24)):
        if top > 1:
            v = draw(st.one_of(st.integers(0, top), st.sampled_from([0, 1, top, top - 1])))
        else:
            v = draw(st.one_of(gen.fl(0.0, 1.0), gen.fl(-1.0, 4.0), gen.unit_edge))
            v = 0.0 if abs(v) < 1e-4 else v
            v = f16(v) if typ == "half" else f32(v)
        base.append(v)
    meta = []
    if typ == "uint16" and (d != "16i" or draw(st.booleans())):
        meta.append(["oiio:BitsPerSample", BITS[d]])
    elif draw(st.integers(0, 2)) == 0:
        meta.append(["oiio:BitsPerSample", {"uint8": 8, "uint16": 16, "half": 16, "float": 32}[typ]])
    for k, v in (("compression", "zip"), ("Artist", "A & B"), ("XResolution", 72.5), ("Orientation", 1),
                 ("DateTime", "2015:01:01 00:00:00")):
        if draw(st.integers(0, 2)) == 0:
            meta.append([k, v])
    names = NAMES[:ch] if draw(st.booleans()) else draw(st.permutations(NAMES[:ch]))
    c = {"list": spec, "depth": d, "w": w, "h": h, "ch": ch, "base": base, "meta": draw(st.permutations(meta)),
         "names": list(names), "out": draw(st.sampled_from([None] + gen.DEPTHS)),
         "via": draw(st.sampled_from(["lib", "lib", "cli", "script"])), "threads": draw(st.sampled_from(threads)),
         "verbose": draw(st.integers(0, 5)) == 0 and w * h < 30, "gzip": draw(st.booleans())}
    if draw(st.integers(0, 3)) == 0:
        c["compression"] = draw(st.sampled_from(["lzw", "none", "piz"]))
    if draw(st.integers(0, 3)) == 0:
        c["quality"] = draw(st.integers(1, 100))
    return c


def image(case):
    d = case["depth"]
    typ, top = KINDS[d]
    n = case["w"] * case["h"] * case["ch"]
    base = case["base"]
    out = []
    for i in range(n):
        v = base[i % len(base)]
        r = i // len(base)
        if r:
            # other values further on
            v = (int(v) * 7 + r * 13 + i) % (top + 1) if top > 1 else (
                f16 if typ == "half" else f32)((v + 0.0625 * (r % 17)) if r % 2 else v * 0.5)
        out.append(v)
    return out


def run(case, ctx):
    d, w, h, ch = case["depth"], case["w"], case["h"], case["ch"]
    typ, top = KINDS[d]
    vals = image(case)
    shift = 16 - BITS[d] if typ == "uint16" else 0
    img = {"type": typ, "width": w, "height": h, "channels": ch, "channelnames": case["names"], "meta": case["meta"],
           "data": [v << shift for v in vals] if shift else vals}
    kw = {}
    argv = ["-i", "in.img", "-o", "out.img", "-c", "f.clf", "-m", str(case["threads"])]
    if case["out"]:
        kw["outBitDepth"] = case["out"]
        argv += ["--outputBitDepth", case["out"]]
    if case["verbose"]:
        kw["verbose"] = True
        argv += ["-v"]
    if "compression" in case:
        kw["compression"] = case["compression"]
        argv += ["--compression", case["compression"]]
    if "quality" in case:
        kw["compressionQuality"] = case["quality"]
        argv += ["--quality=%d" % case["quality"]]
    kw["multithreaded"] = case["threads"]
    step = {"lib": ["filter", "in.img", "out.img", "f.clf", kw], "cli": ["cli", "filter", argv],
            "script": ["script", "filterImageWithCLF", argv]}[case["via"]]
    nodes = case["list"]["nodes"]
    out = case["out"] or d
    to = [1.0 / (top if top > 1 else 1.0), 1.0]
    if nodes:
        to = [model.size(nodes[0]["in"]) / model.size(d), model.size(out) / model.size(nodes[-1]["out"])]
    else:
        to = [1.0, model.size(out) / model.size(d)]
    src = [v * to[0] for v in vals]
    near = [[v * (1 + s * 2.0 ** -21) for v in src] for s in (1, -1)]
    res = ctx.ok([["new", "s", case["list"], "top"], ["write", "s", "f.clf", {"gzip": case["gzip"]}],
                  ["image", "in.img", img], step, ["getimage", "out.img"], ["getimage", "in.img"],
                  ["read", "l", "f.clf"], ["process", "l", src, ch], ["process", "l", near[0], ch],
                  ["process", "l", near[1], ch], ["ls"]])
    got = res[4]
    if got is None:
        ctx.fail("no image was written (%s)" % case["via"])
    if res[5]["data"] != [float(v) for v in img["data"]] and [float(v) for v in res[5]["data"]] != [
            float(v) for v in img["data"]]:
        ctx.fail("the input image was changed")
    if res[10] != ["f.clf"]:
        ctx.fail("files left: %r" % res[10])
    if (got["width"], got["height"], got["channels"]) != (w, h, ch):
        ctx.fail("image of %r became %r" % ((w, h, ch), (got["width"], got["height"], got["channels"])))
    if got["channelnames"] != case["names"]:
        ctx.fail("channels %r became %r" % (case["names"], got["channelnames"]))
    otyp, otop = KINDS[out]
    if got["type"] != otyp:
        ctx.fail("output depth %s: the image is of type %s" % (out, got["type"]))
    want = {k: v for k, v in case["meta"] if k != "oiio:BitsPerSample"}
    if "compression" in case:
        want["compression"] = case["compression"]
    if "quality" in case:
        want["CompressionQuality"] = case["quality"]
    have = dict(map(tuple, got["meta"]))
    bps = have.pop("oiio:BitsPerSample", None)
    if have != want:
        ctx.fail("metadata %r became %r" % (case["meta"], got["meta"]))
    if out in BITS and bps != BITS[out]:
        ctx.fail("oiio:BitsPerSample is %r for output depth %s" % (bps, out))
    base, nears = res[7], res[8:10]
    oshift = 16 - BITS[out] if otyp == "uint16" else 0
    changed = False
    for i, g in enumerate(got["data"]):
        v = base[i] * to[1]
        a, b = nears[0][i] * to[1], nears[1][i] * to[1]
        if not all(x == x and abs(x) < 1e30 for x in (v, a, b)):
            ctx.label("not finite")
            if v != v and out in BITS:
                continue
            if v == v and abs(v) == math.inf and out in BITS and a == v and b == v:
                lim = float(otop << oshift) if v > 0 else 0.0
                if g != lim:
                    ctx.fail("value %d: %r became %r" % (i, v, g))
            continue
        tol = 2e-6 * abs(v) + 2 * (abs(a - v) + abs(b - v)) + 1e-30
        where = "pixel %d of %dx%d channel %d (input %r %s, list gives %r): " % (
            i // ch, w, h, i % ch, vals[i], d, base[i])
        if out in BITS:
            lo = min(otop, max(0, math.floor(v - tol + 0.5)))
            hi = min(otop, max(0, math.floor(v + tol + 0.5)))
            if g != int(g) or int(g) % (1 << oshift):
                ctx.fail(where + "%r is not a %s code value" % (g, out))
            if not lo <= int(g) >> oshift <= hi:
                ctx.fail(where + "%s output is %d, expected %d" % (out, int(g) >> oshift, lo))
            if g != (vals[i] << shift if shift else vals[i]):
                changed = True
        else:
            if out == "16f":
                ok = f16(v - tol) <= g <= f16(v + tol)
            else:
                ok = v - tol <= g <= v + tol
            if not ok:
                ctx.fail(where + "%s output is %r, expected %r (+- %.3g)" % (out, g, v, tol))
            changed = True
    ctx.label("%s to %s" % (d, out))
    ctx.label("%d processes" % case["threads"])
    return changed and w * h > 1


def tests(tier):
    return [Test("filter", case(), run, 1100, 40000),
            Test("several processes", case((2, 3), 1), run, 30, 800)]
