"""C28: the LUT format registry honours what the formats advertise."""
import base64

from hypothesis import strategies as st

from checks import c19
from pbt import gen, lutio, model
from pbt.core import Test

RULE = ("A case is a list, an extension (of a format or not, in any capitalisation, in directories with dots), a kind of "
        "table, resolutions, and whether the file exists already; or the content of a LUT file, a name for it and "
        "whether nodes or a list are wanted. What the formats advertise is compared with the documented table and "
        "decides what must happen: a file in the format (which an independent parser accepts, with the requested "
        "resolutions), or nothing at all. Non-trivial when the extension belongs to a format.")
ASSUMPTIONS = ["kinds are given by the registry's constants '1D', '3D' and '1D_3D_1D'"]

#           extension: read, 1D, 3D, 1D-3D-1D
FORMATS = {"clf": [False, False, False, True], "csp": [True, True, True, True], "ctl": [False, True, True, False],
           "spi1d": [True, True, False, False], "spi3d": [True, False, True, False],
           "spimtx": [False, False, False, False]}
KINDS = ["1D", "3D", "1D_3D_1D"]


def cap(draw, ext):
    k = draw(st.integers(0, 4))
    if k == 0:
        return ext.upper()
    if k == 1:
        return ext.title()
    if k == 2:
        return "".join(c.upper() if draw(st.booleans()) else c for c in ext)
    return ext


@st.composite
def name(draw, exts):
    ext = draw(st.sampled_from(exts))
    base = draw(st.sampled_from(["out", "a.b", "spi1d", "x.csp", "sp ace", "d.ir/out", "clf.d/csp"]))
    return ext, base + "." + cap(draw, ext) if ext else base.replace("x.csp", "csp")


@st.composite
def write_case(draw):
    ext, path = draw(name(sorted(FORMATS) * 4 + ["cube", "xml", "clfz", "spi", "1d", "", "csp2", "3dl", "spi1", "c"]))
    return {"list": draw(gen.plist(min_nodes=1, max_nodes=2)), "ext": ext, "path": path,
            "kind": draw(st.sampled_from(KINDS)), "res1": draw(st.integers(2, 20)), "res3": draw(st.integers(2, 5)),
            "res131": [draw(st.integers(2, 20)), draw(st.integers(2, 4)), draw(st.integers(2, 12))],
            "before": draw(st.sampled_from([None, None, "old", "SPILUT 1.0\n"]))}


def parse(ctx, case, text):
    e, k = case["ext"], case["kind"]
    try:
        if e == "spi1d":
            got, want = len(lutio.parse_spi1d(text)["rows"]), case["res1"]
        elif e == "spi3d":
            got, want = lutio.parse_spi3d(text)["dims"], [case["res3"]] * 3
        elif e == "csp":
            d = lutio.parse_csp(text)
            got = [d["kind"].upper(), list(d["dims"])]
            want = [k[:2] if k != "1D_3D_1D" else "3D", [case["res1"]] if k == "1D" else
                    [case["res3"] if k == "3D" else case["res131"][1]] * 3]
        else:
            return
    except lutio.Bad as x:
        ctx.fail("the %s file is not valid: %s" % (e, x))
    if got != want:
        ctx.fail("the %s file of a %s table holds %r, expected %r" % (e, k, got, want))


def run_write(case, ctx):
    path, k = case["path"], KINDS.index(case["kind"])
    row = FORMATS.get(case["ext"])
    can = bool(row) and row[1 + k]
    head = [["new", "a", case["list"], "top"], ["put", path, case["before"] or ""]]
    if case["before"] is None:
        head += [["remove", path]]
    kw = {"lutDataFormat": case["kind"], "lutResolution1d": case["res1"], "lutResolution3d": case["res3"],
          "lutResolution1d3d1d": case["res131"]}
    px = [0.25, 0.5, 0.75]
    res = ctx.ok([["reglist"]] + head + [["process", "a", px, 3], ["regwrite", "a", path, kw], ["ls"],
                                         ["getb64", path], ["process", "a", px, 3]])
    if {r[0]: r[1:] for r in res[0]} != FORMATS:
        ctx.fail("the registry advertises %r" % res[0])
    ls, got = res[-3], res[-2]
    if repr(res[-5]) != repr(res[-1]):
        ctx.fail("writing changed the list")
    data = base64.b64decode(got) if got is not None else None
    if not can:
        if data != (case["before"].encode() if case["before"] is not None else None) or \
                ls != ([path] if case["before"] is not None else []):
            ctx.fail("%s cannot be written as %s, but there is %r with %r" % (case["kind"], path, ls, (data or b"")[:99]))
    else:
        if ls != [path]:
            ctx.fail("writing %s as %s left %r" % (case["kind"], path, ls))
        if data == (case["before"] or "").encode():
            ctx.fail("%s was not written to %s" % (case["kind"], path))
        parse(ctx, case, data.decode("utf-8"))
    if row and row[0]:
        res = ctx.ok(head + [["put", path, base64.b64encode(data or b"").decode("ascii"), "b64"],
                             ["regread", "b", path], ["process", "b", [0.0, 0.5, 1.0], 3]]) if can else None
        if res and not res[-2]:
            ctx.fail("%s is not read back" % path)
    ctx.label("%s %s%s" % (case["ext"], case["kind"], "" if can else " refused"))
    return row is not None


@st.composite
def read_case(draw):
    fmt = draw(st.sampled_from(["spi1d", "spi3d", "csp1", "csp3"]))
    own = fmt[:3] if fmt.startswith("csp") else fmt
    ext, path = draw(name([own] * 8 + ["clf", "ctl", "spimtx", "cube", "xml", "", "csp2", "spi", "txt"]))
    if fmt == "spi1d":
        n = draw(st.integers(2, 5))
        text = lutio.write_spi1d([0.0, 1.0], c19.rows_of(draw, n, draw(st.sampled_from([1, 3]))), {}, 1)
    elif fmt == "csp1":
        n = draw(st.integers(2, 5))
        text = lutio.write_csp("1D", [[[0.0, 2.0], [0.0, 1.0]]] * 3, [n], c19.rows_of(draw, n, 3), {}, 1)
    else:
        d = [draw(st.integers(2, 3)) for _ in range(3)]
        rows = c19.rows_of(draw, d[0] * d[1] * d[2], 3)
        text = lutio.write_spi3d(d, rows, {}, 1) if fmt == "spi3d" else lutio.write_csp(
            "3D", [[[0.0, 2.0], [0.0, 1.0]]] * 3, d, rows, {}, 1)
    return {"ext": ext, "path": path, "text": text, "fmt": fmt,
            "px": [draw(st.integers(-100, 1200)) / 1000.0 for _ in range(6)]}


def run_read(case, ctx):
    path = case["path"]
    can = FORMATS.get(case["ext"], [False])[0]
    res = ctx.ok([["put", path, case["text"]], ["regread", "a", path], ["regnodes", "b", path], ["ls"], ["get", path]])
    if res[3] != [path] or res[4]["text"] != case["text"]:
        ctx.fail("reading %s left %r" % (path, res[3]))
    if not can:
        if res[1] or res[2] is not None:
            ctx.fail("%s was read: %r" % (path, res[2]))
        ctx.label("%s refused" % case["ext"])
        return case["ext"] in FORMATS
    if not res[1] or not isinstance(res[2], list) or not res[2]:
        ctx.fail("%s was not read: %r, nodes %r" % (path, res[1], res[2]))
    res = ctx.ok([["put", path, case["text"]], ["put", "plain." + case["ext"], case["text"]], ["regread", "a", path],
                  ["process", "a", case["px"], 3], ["nodes", "a"], ["regnodes", "b", path],
                  ["process", "b", case["px"], 3], ["regread", "c", "plain." + case["ext"]],
                  ["process", "c", case["px"], 3]])
    if res[4]["iter"] != res[5]:
        ctx.fail("the list has the nodes %r, the nodes returned are %r" % (res[4]["iter"], res[5]))
    for what, g in (("nodes", res[6]), ("file in lower case", res[8])):
        if repr(g) != repr(res[3]):
            ctx.fail("%s: the list gives %r, the %s %r" % (path, res[3], what, g))
    ctx.label(case["fmt"])
    return True


def tests(tier):
    return [Test("write", write_case(), run_write, 1500, 40000), Test("read", read_case(), run_read, 1200, 30000)]
