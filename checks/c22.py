"""C22: the LUT conversion commands do what their options say."""
import base64
import re

from hypothesis import strategies as st

from pbt import gen, lutio, model
from pbt.core import Test

RULE = ("A case is a CLF or LUT file and a command line: options in any order and spelling (--opt value, --opt=value, "
        "short forms), any subset left out, run through the module's main or the script in bin. The file written must be "
        "the one that the library calls write with the arguments the options stand for; where the format does not "
        "support what is asked for, nothing is written, an existing file stays and the output says so. Non-trivial when "
        "at least two options besides the paths are given.")
ASSUMPTIONS = ["one table kind is asked for at a time"]

EXTS = ["spi1d", "spi3d", "csp", "clf", "ctl"]


def num(v):
    return repr(v)


@st.composite
def to_lut(draw):
    spec = draw(gen.plist(min_nodes=1, max_nodes=2, bypass=True))
    m = model.size(spec["nodes"][0]["in"])
    kind = draw(st.sampled_from([None, "1d", "3d", "1d3d1d", "1d3d1d"]))
    good = {"3d": ["spi3d", "csp", "ctl"], "1d3d1d": ["clf", "clf", "csp"]}.get(kind, ["spi1d", "csp", "ctl"])
    ext = draw(st.sampled_from(good if draw(st.integers(0, 3)) else EXTS + ["spimtx", "cube", ""]))
    opts, kw = [], {"shaperIn": [None, 0.0, 1.0], "shaperOut": [None, 0.0, 1.0]}
    if kind:
        opts.append(["--generate" + kind])
        kw["lutDataFormat"] = {"1d": "1D", "3d": "3D", "1d3d1d": "1D_3D_1D"}[kind]
    if draw(st.integers(0, 7)):
        v = draw(st.integers(2, 40))
        opts.append(["--lutResolution1d", str(v)])
        kw["lutResolution1d"] = v
    # the default of 33 is slow; it is used in one case of this test
    v = draw(st.integers(2, 5))
    opts.append(["--lutResolution3d", str(v)])
    kw["lutResolution3d"] = v
    v = [draw(st.integers(2, 30)), draw(st.integers(2, 5)), draw(st.integers(2, 12))]
    opts.append(["--lutResolution1d3d1d"] + [str(x) for x in v])
    kw["lutResolution1d3d1d"] = v
    lo = 0.0
    if draw(st.booleans()):
        lo = draw(st.sampled_from([0.0, -0.125, 0.5, -3.25, 0.001]))
        opts.append(["--inputMinValue", num(lo)])
        kw["inputMin"] = lo
    if draw(st.booleans()) or lo >= 1.0:
        v = lo + draw(st.sampled_from([1.0, 0.25, 16.0, 1000.5, m]))
        opts.append(["--inputMaxValue", num(v)])
        kw["inputMax"] = v
    for key in ("shaperIn", "shaperOut"):
        k = draw(st.integers(0, 4))
        if k < 2:
            a = draw(st.sampled_from([0.0, -0.5, 0.25, 0.001]))
            kw[key] = ["linear", a, a + draw(st.sampled_from([1.0, 4.0, 0.125, m]))]
        elif k < 4:
            a = draw(st.sampled_from([-8.5, -4.0, -6.25, 0.0, 1.5]))
            kw[key] = ["log2", a, a + draw(st.sampled_from([1.0, 4.0, 12.5]))]
        if kw[key][0]:
            opts.append(["--" + key] + [kw[key][0], num(kw[key][1]), num(kw[key][2])])
    if draw(st.booleans()):
        opts.append([draw(st.sampled_from(["-f", "--format"])), ext or "x"])
    n = len(opts)
    return {"list": spec, "ext": ext, "opts": opts, "kw": kw, "n": n, "upper": draw(st.integers(0, 4)) == 0,
            "gzip": draw(st.booleans()), "order": draw(st.permutations(range(n + 2))),
            "equals": [draw(st.booleans()) for _ in range(n + 2)], "short": draw(st.booleans()),
            "script": draw(st.booleans()), "before": draw(st.booleans())}


CAN = {"spi1d": ["1D"], "spi3d": ["3D"], "csp": ["1D", "3D", "1D_3D_1D"], "clf": ["1D_3D_1D"], "ctl": ["1D", "3D"]}
REPORT = re.compile(r"not (currently )?support|error|fail|can ?not|can't|unable|unsupported|no format|invalid", re.I)


def command(case, opts):
    argv = []
    for k in case["order"]:
        o = opts[k]
        if len(o) == 2 and o[0].startswith("--") and case["equals"][k]:
            argv.append(o[0] + "=" + o[1])
        else:
            argv.extend(o)
    return argv


def run_to_lut(case, ctx):
    out = "out" + ("." + case["ext"] if case["ext"] else "")
    if case["upper"]:
        out = out.upper() if case["ext"] else out
    short = case["short"]
    opts = case["opts"] + [["-c" if short else "--clf", "in.clf"], ["-l" if short else "--lut", out]]
    argv = command(case, opts)
    run = ["script", "convertCLFtoLUT", argv] if case["script"] else ["cli", "clf2lut", argv]
    head = [["new", "s", case["list"], "top"], ["write", "s", "in.clf", {"gzip": case["gzip"]}]]
    want = case["kw"].get("lutDataFormat", "1D")
    can = want in CAN.get(case["ext"], [])
    if case["before"]:
        head.append(["put", out, "what was there before"])
    res = ctx.ok(head + [run, ["ls"], ["getb64", out], ["getb64", "in.clf"]])
    k = len(head)
    said, ls, got = res[k], res[k + 1], res[k + 2]
    if sorted(ls) != sorted(set(["in.clf"] + ([out] if can or case["before"] else []))):
        ctx.fail("%r left the files %r" % (argv, ls))
    if not can:

        if case["before"] and base64.b64decode(got) != b"what was there before":
            ctx.fail("%r: %s cannot hold %s, but the file there was changed" % (argv, case["ext"], want))
        if not REPORT.search(said):
            ctx.fail("%r: %s cannot hold %s, but nothing says so: %r" % (argv, case["ext"], want, said[-300:]))
        ctx.label("refused")
        return case["n"] > 1
    lib = "lib" + out[3:]
    res = ctx.ok(head[:2] + [["read", "a", "in.clf"], ["regwrite", "a", lib, case["kw"]], ["getb64", lib]])
    if res[-1] != got:

        a, b = (base64.b64decode(x or "").decode("utf-8", "replace").split("\n") for x in (got, res[-1]))
        d = [i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]]
        ctx.fail("%r: the file differs from the library's with %r: line %d is %r, not %r" % (
            argv, case["kw"], d[0], a[d[0]:d[0] + 1], b[d[0]:d[0] + 1]))
    ctx.label("%s %s" % (case["ext"], want))
    return case["n"] > 1


@st.composite
def rising(draw, n):
    v, out = draw(st.sampled_from([0.0, 0.125, -0.25])), []
    for _ in range(n):
        out.append(v)
        v += draw(st.integers(1, 300)) / 1000.0
    return out


@st.composite
def to_clf(draw, half=False):
    ext = draw(st.sampled_from(["spi1d", "spi1d", "spi1d", "spi3d", "csp", "csp", "spimtx", "ctl", "cube", "clf", ""])
               ) if not half else "spi1d"
    c = {"ext": ext, "upper": draw(st.integers(0, 4)) == 0, "opts": [], "kw": {
        "inverse": False, "inversesUseIndexMaps": False, "inversesUseHalfDomain": False}}
    if ext == "csp" and draw(st.booleans()):
        n = draw(st.integers(2, 6))
        c["text"] = lutio.write_csp("1D", [[[0.0, 2.0], [0.0, 1.0]]] * 3, [n],
                                    [[x, x * x, 1 - x] for x in draw(rising(n))], {}, 1)
    elif ext in ("spi3d", "csp"):
        d = [draw(st.integers(2, 3)) for _ in range(3)]
        rows = [[draw(st.integers(0, 1000)) / 1000.0 for _ in range(3)] for _ in range(d[0] * d[1] * d[2])]
        pre = [[[0.0, 1.0], [0.0, 1.0]]] * 3 if draw(st.booleans()) else [[[0.0, 0.5, 4.0], [0.0, 0.75, 1.0]]] * 3
        c["text"] = lutio.write_spi3d(d, rows, {}, 1) if ext == "spi3d" else lutio.write_csp("3D", pre, d, rows, {}, 1)
    else:
        n = draw(st.integers(2, 6)) if not half else 2
        rng = draw(st.sampled_from([[0.0, 1.0], [-0.5, 1.5], [0.0, 10.0]]))
        cols = [draw(rising(n)) for _ in range(draw(st.sampled_from([1, 3])) if not half else 1)]
        c["text"] = lutio.write_spi1d(rng, [list(r) for r in zip(*cols)], {}, 1)
    flags = ["inverse", "inversesUseIndexMaps", "inversesUseHalfDomain"]
    for f in flags:
        on = draw(st.booleans())
        if half:
            on = f != "inversesUseIndexMaps"
        elif f == "inversesUseHalfDomain" and c["kw"]["inverse"] and not c["kw"]["inversesUseIndexMaps"]:
            on = False      # slow, has a test of its own
        if on:
            c["opts"].append(["--" + f])
            c["kw"][f] = True
    n = len(c["opts"])
    c.update({"order": draw(st.permutations(range(n + 2))), "equals": [draw(st.booleans()) for _ in range(n + 2)],
              "short": draw(st.booleans()), "script": draw(st.booleans()), "before": draw(st.booleans()),
              "out": draw(st.sampled_from(["out.clf", "out.clfz", "out.xml"]))})
    return c


def run_to_clf(case, ctx):
    inp = "in" + ("." + case["ext"] if case["ext"] else "")
    if case["upper"] and case["ext"]:
        inp = "in." + case["ext"].upper()
    out, short = case["out"], case["short"]
    opts = case["opts"] + [["-l" if short else "--lut", inp], ["-c" if short else "--clf", out]]
    argv = command(case, opts)
    run = ["script", "convertLUTToCLF", argv] if case["script"] else ["cli", "lut2clf", argv]
    head = [["put", inp, case["text"]]]
    if case["before"]:
        head.append(["put", out, "what was there before"])
    can = case["ext"] in ("spi1d", "spi3d", "csp")
    if can and case["kw"]["inverse"] and case["ext"] != "spi1d":
        said, ls, got = ctx.run(head + [run, ["ls"], ["getb64", out]])[-3:]
        if sorted(ls["ok"]) != sorted([inp] + ([out] if case["before"] else [])):
            ctx.fail("%r: there is no inverse of %s, but there are the files %r" % (argv, inp, ls["ok"]))
        if case["before"] and base64.b64decode(got["ok"]) != b"what was there before":
            ctx.fail("%r: there is no inverse of %s, but the file there was changed" % (argv, inp))
        if "exc" not in said and not REPORT.search(said["ok"] or ""):
            ctx.fail("%r: there is no inverse of %s, but nothing says so: %r" % (argv, inp, said["ok"]))
        ctx.label("no inverse")
        return True
    res = ctx.ok(head + [run, ["ls"], ["getb64", out]])
    said, ls, got = res[-3:]
    if sorted(ls) != sorted(set([inp] + ([out] if can or case["before"] else []))):
        ctx.fail("%r left the files %r" % (argv, ls))
    if not can:

        if case["before"] and base64.b64decode(got) != b"what was there before":
            ctx.fail("%r: %s cannot be read, but the file there was changed" % (argv, case["ext"]))
        if not REPORT.search(said):
            ctx.fail("%r: %s cannot be read, but nothing says so: %r" % (argv, case["ext"], said[-300:]))
        ctx.label("refused")
        return True
    res = ctx.ok(head[:1] + [["regread", "a", inp, case["kw"]], ["write", "a", out], ["getb64", out]])
    if res[-1] != got:
        ctx.fail("%r: the file differs from the library's with %r" % (argv, case["kw"]))
    ctx.label("%s %s" % (case["ext"], " ".join(o[0] for o in case["opts"])))
    return len(case["opts"]) > 0


NODE = {"t": "Gamma", "in": "16f", "out": "16f", "style": "basicFwd", "params": [[2.2, 0.0, None]]}
DEFAULTS = [{"list": {"nodes": [NODE]}, "ext": e, "opts": [["--generate" + k]], "kw": {
    "lutDataFormat": f, "shaperIn": [None, 0.0, 1.0], "shaperOut": [None, 0.0, 1.0], "lutResolution1d": 1024,
    "lutResolution3d": 33, "lutResolution1d3d1d": [1024, 33, 2], "inputMin": 0.0, "inputMax": 1.0}, "n": 2,
    "upper": False, "gzip": False, "order": [0, 1, 2], "equals": [False] * 3, "short": True, "script": True,
    "before": False} for e, k, f in (("csp", "3d", "3D"), ("csp", "1d3d1d", "1D_3D_1D"), ("spi1d", "1d", "1D"))]


def tests(tier):
    return [Test("convertCLFtoLUT", to_lut(), run_to_lut, 1300, 40000, explicit=DEFAULTS),
            Test("convertLUTtoCLF", to_clf(), run_to_clf, 900, 20000),
            Test("half-domain inverse", to_clf(True), run_to_clf, 2, 100)]
