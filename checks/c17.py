"""C17: CLF files of other programs are read by their meaning."""
import base64

from hypothesis import strategies as st

from pbt import gen, model, tables, xmlio
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("A case is the content of a document (up to 4 nodes, groups to depth 2, metadata) and a layout for it: "
        "namespaces, encoding, comments and processing instructions, CDATA, character references, white space, line "
        "ends, number notation, attribute and child order, dashes and underscores in element names, unknown attributes "
        "and elements, omitted defaults, spelling of flags, hex case. An independent writer produces the document; what "
        "the library reads is written again and compared with the content, and processes pixels bit for bit like the "
        "same content in the plainest layout, whose steps are compared with the reference model. Non-trivial when the "
        "layout differs from the plain one in at least two ways and there is at least one node.")
ASSUMPTIONS = ["element names may contain dashes and underscores after their first character",
               "documents do not define their own entities"]

EXT = "{http://www.example.org/ext}"
XSI = "{http://www.w3.org/2001/XMLSchema-instance}schemaLocation"
IGNORE = ("vendor", "zz", "Dim", "version", EXT + "info", EXT + "bypass", XSI)


@st.composite
def layout(draw):
    s = {}

    def maybe(k, v, p=3):
        if draw(st.integers(0, p)) == p:
            s[k] = draw(st.sampled_from(v)) if isinstance(v, list) else True
    maybe("ns", ["default", "prefix"], 1)
    maybe("enc", ["utf-8-sig", "utf-16", "iso-8859-1", "us-ascii", "windows-1252"], 1)
    if s.get("enc", "utf-8") in ("utf-8", "utf-8-sig") and draw(st.booleans()):
        s["decl"] = False
    for k in ("comments", "cdata", "dash", "shuffle", "quotes", "space", "unknown_attrs", "hexcase", "crlf", "order",
              "case"):
        maybe(k, True, 2)
    maybe("numbers", ["exp", "EXP", "plus", "int", "dot", "mixed"], 1)
    maybe("unknown_elems", True, 2)
    maybe("omit", True, 1)
    maybe("flags", ["true", "mixed"], 1)
    return s


def to_single(nodes):
    """Decimal table values are single precision numbers."""
    for n in nodes:
        if "nodes" in n:
            to_single(n["nodes"])
        if "vals" in n and not n.get("rawHalfs") and n.get("enc", "string") == "string":
            if isinstance(n["vals"], list):
                n["vals"] = [gen.f32(v) for v in n["vals"]]
    return nodes


def flags(draw, nodes):
    for n in nodes:
        if "nodes" in n:
            flags(draw, n["nodes"])
        if draw(st.integers(0, 5)) == 0:
            n["bypass"] = True


def drop_empty(nodes):
    for n in nodes:
        if "nodes" in n:
            drop_empty(n["nodes"])
        for k in ("id", "name"):
            if n.get(k) == "":
                del n[k]


@st.composite
def case(draw):
    spec = draw(gen.plist(meta=draw(st.booleans()), min_nodes=1, max_nodes=3))
    to_single(spec["nodes"])
    drop_empty(spec["nodes"])
    flags(draw, spec["nodes"])
    for e in spec.get("elems", []):
        if e[0] == "Info" and draw(st.booleans()):
            e.append(draw(st.lists(st.tuples(st.sampled_from(["AppRelease", "Copyright", "Release"]), gen.body_text)
                                   .map(list), max_size=4)))
    lay = draw(layout())
    if lay.get("omit"):
        # give the defaults something to do
        for n in spec["nodes"]:
            if n["t"] in ("Range", "Gamma", "Log", "ExposureContrast", "ASCCDL", "Matrix", "LUT1D", "LUT3D"):
                if draw(st.integers(0, 2)) == 0 and n["t"] != "ColorCorrection":
                    n["in"] = "16f"
                if draw(st.integers(0, 2)) == 0:
                    n["out"] = "16f"
                if n["t"] == "Log" and draw(st.booleans()):
                    n["params"] = [[draw(st.sampled_from([0.6, 0.5])), draw(st.sampled_from([685.0, 700.0])),
                                    draw(st.sampled_from([95.0, 90.0])), draw(st.sampled_from([1.0, 1.5])),
                                    draw(st.sampled_from([0.0, 0.1])), p[5]] for p in n["params"]]
    d = spec["nodes"][0]["in"]
    vals, stride = draw(gen.pixels(d, 3, 5, 2, -1.0, 2.0, long=False))
    return {"list": spec, "layout": lay, "seed": draw(st.integers(0, 10 ** 6)), "vals": vals, "stride": stride,
            "strict": draw(st.booleans())}


def run(case, ctx):
    spec, lay, vals, stride = case["list"], case["layout"], case["vals"], case["stride"]
    strict = case["strict"] and not lay.get("unknown_elems")
    doc = base64.b64encode(xmlio.foreign(spec, lay, case["seed"])).decode()
    plain = base64.b64encode(xmlio.foreign(spec, {})).decode()
    flat = model.flatten(spec["nodes"])
    res = ctx.ok([["put", "f.clf", doc, "b64"], ["put", "p.clf", plain, "b64"],
                  ["read", "a", "f.clf", strict], ["read", "p", "p.clf", True],
                  ["process", "a", vals, stride], ["process", "p", vals, stride],
                  ["write", "a", "w.clf"], ["getb64", "w.clf"], ["nodes", "a"],
                  ["new", "f", {"nodes": flat}], ["put", "q.clf", base64.b64encode(xmlio.foreign({"nodes": flat}, {})).decode(), "b64"],
                  ["read", "q", "q.clf"], ["steps", "q", vals, stride]])
    if list(map(bits, res[4])) != list(map(bits, res[5])):
        ctx.fail("the document gives %r, the same content in plain layout %r" % (res[4], res[5]))
    try:
        got = xmlio.parse(base64.b64decode(res[7]))
    except (xmlio.ET.ParseError, xmlio.BadDocument, ValueError, KeyError) as e:
        ctx.fail("what was read is not written as a CLF document: %s: %s" % (type(e).__name__, e))
    d = xmlio.diff(got, xmlio.expected(dict(spec, nodes=[model.through_file(n) for n in spec["nodes"]])), IGNORE, IGNORE)
    if d:
        ctx.fail("read from the document: " + d)
    types = [n["t"] for n in spec["nodes"]]
    if [t.replace("_", "") for t in res[8]["types"]] != types:
        ctx.fail("nodes %r, expected %r" % (res[8]["types"], types))
    for i, n in enumerate(spec["nodes"]):
        if n["t"] != "ColorCorrection" and res[8]["depths"][i] != [n["in"], n["out"]]:
            ctx.fail("node %d: bit depths %r, expected %r" % (i, res[8]["depths"][i], [n["in"], n["out"]]))
    steps = res[12]
    model.check_steps(ctx, [read_values(n) for n in flat], vals, stride, steps, "plain layout")
    last = steps[-1] if steps else [gen.f32(v) for v in vals]
    if list(map(bits, res[5])) != list(map(bits, last)):
        ctx.fail("the list gives %r, its nodes one by one %r" % (res[5], last))
    for k in lay:
        ctx.label("%s=%s" % (k, lay[k]))
    return len(lay) >= 2


def read_values(s):
    """Values of a table as the foreign document stores them."""
    s = dict(s)
    if "vals" in s:
        enc = s.get("enc", "string")
        vals = tables.values(s["vals"])
        s["vals"] = [gen.f32(v) for v in vals] if enc == "string" and not s.get("rawHalfs") \
            else model.stored_values(vals, enc, s.get("rawHalfs", False))
    return s


def tests(tier):
    return [Test("layouts", case(), run, 2000, 50000)]
