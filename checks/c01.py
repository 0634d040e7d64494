import base64
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pbt import gen, model, xmlio
from pbt.core import Test

RULE = ("A case is a process list (0 to 5 nodes of any type, groups to depth 2, ids, names, descriptions, dynamic "
        "parameters, list attributes and elements, text with markup and any script). The written document is parsed "
        "independently and compared with the expected content, read back (strictly or not), inspected, written again "
        "and compared again. Non-trivial when the list has a node with metadata, parameters, tables or children.")
ASSUMPTIONS = ["text has no control characters other than tab and newline in element text, and no U+0085, U+2028 or "
               "non-characters", "tables and parameters are finite"]


@st.composite
def case(draw):
    spec = draw(gen.plist(meta=True, max_nodes=5, bypass=True))
    return {"list": spec, "strict": draw(st.booleans()), "gzip": draw(st.integers(0, 4)) == 0,
            "how": draw(st.sampled_from(["ctor", "readFile"])),
            "name": draw(st.sampled_from(["a.clf", "a.clfz", "x.xml", "b", "sp ace.clf", "d.ctf"]))}


def document(ctx, data, gz, what):
    """Parsed content of a written file."""
    import gzip
    if gz:
        data = gzip.decompress(data)
    try:
        data.decode("utf-8")
    except UnicodeDecodeError as e:
        ctx.fail("%s is not UTF-8: %s" % (what, e))
    try:
        return xmlio.parse(data)
    except (ET.ParseError, xmlio.BadDocument, ValueError, KeyError) as e:
        ctx.fail("%s is not a CLF document: %s: %s" % (what, type(e).__name__, e))


def tables_of(spec):
    return [(i, n) for i, n in enumerate(spec["nodes"]) if n["t"] in ("LUT1D", "LUT3D")]


def run(case, ctx):
    spec = case["list"]
    name = case["name"]
    opts = {"gzip": case["gzip"]}
    script = [["new", "a", spec], ["write", "a", name, opts], ["getb64", name],
              ["read", "b", name, case["strict"], case["how"]], ["nodes", "b"],
              ["attrs", "b", ["name", "id", "inverseOf", "compCLFversion"]]]
    for i, n in tables_of(spec):
        script.append(["lut", "b", i])
        for c in range(len(n.get("imaps") or [])):
            script.append(["imap", "b", i, c])
    tail = len(script)
    script += [["write", "b", "second.clf"], ["getb64", "second.clf"], ["write", "a", "again.clf", opts],
               ["getb64", "again.clf"], ["write", "a", name, {}], ["getb64", name]]
    res = ctx.ok(script)
    first = base64.b64decode(res[2])
    want = xmlio.expected(spec)
    d = xmlio.diff(document(ctx, first, case["gzip"], "written file"), want)
    if d:
        ctx.fail("written file: " + d)

    # what was read, through the public interface
    stored = dict(spec, nodes=[model.through_file(n) for n in spec["nodes"]])
    info = res[4]
    types = [n["t"] for n in spec["nodes"]]
    for k in ("iter", "types"):
        info[k] = [t.replace("_", "") for t in info[k]]
    if not (info["iter"] == info["types"] == types and info["len"] == len(types)):
        ctx.fail("read node types %r, expected %r" % (info, types))
    for i, n in enumerate(spec["nodes"]):
        if n["t"] != "ColorCorrection":
            if info["depths"][i] != [n["in"], n["out"]]:
                ctx.fail("node %d: bit depths %r, expected %r" % (i, info["depths"][i], [n["in"], n["out"]]))
            if (info["names"][i] or "") != n.get("name", ""):
                ctx.fail("node %d: name %r, expected %r" % (i, info["names"][i], n.get("name", "")))
    attrs = dict(spec["attrs"])
    for k, got in zip(["name", "id", "inverseOf", "compCLFversion"], res[5]):
        if got != (None if k not in attrs else "%s" % attrs[k]):
            ctx.fail("list attribute %s is %r, expected %r" % (k, got, attrs.get(k)))
    k = 6
    for i, n in tables_of(stored):
        dims = [len(n["vals"]) // n["ch"], n["ch"]] if n["t"] == "LUT1D" else n["dims"] + [3]
        if res[k]["dims"] != dims:
            ctx.fail("node %d: table dimensions %r, expected %r" % (i, res[k]["dims"], dims))
        if list(map(xmlio.bits, res[k]["vals"])) != list(map(xmlio.bits, n["vals"])):
            bad = [(j, a, b) for j, (a, b) in enumerate(zip(res[k]["vals"], n["vals"])) if xmlio.bits(a) != xmlio.bits(b)]
            ctx.fail("node %d: table values read differ (index, read, expected): %r" % (i, bad[:4]))
        k += 1
        for m in n.get("imaps") or []:
            if res[k] != {"dim": len(m[0]), "in": [float(x) for x in m[0]], "out": [float(x) for x in m[1]]}:
                ctx.fail("node %d: index map %r, expected %r" % (i, res[k], m))
            k += 1
    assert k == tail

    d = xmlio.diff(document(ctx, base64.b64decode(res[tail + 1]), False, "file written after reading"),
                   xmlio.expected(stored))
    if d:
        ctx.fail("file written after reading: " + d)
    again = base64.b64decode(res[tail + 3])
    if xmlio.diff(document(ctx, again, case["gzip"], "second write"), want):
        ctx.fail("the second write of the same list differs: " + xmlio.diff(
            document(ctx, again, case["gzip"], "second write"), want))
    d = xmlio.diff(document(ctx, base64.b64decode(res[tail + 5]), False, "rewritten file"), want)
    if d:
        ctx.fail("written over the first file: " + d)
    for t in types:
        ctx.label(t)
    return any(len(n) > 4 for n in spec["nodes"])


@st.composite
def half_case(draw):
    n = draw(gen.lut1d_node(meta=True, half=True))
    n["ch"] = n["vals"]["table"]["ch"] = draw(st.sampled_from([1, 1, 3]))
    return {"list": {"attrs": [], "elems": [], "nodes": [n]}, "strict": draw(st.booleans()), "gzip": draw(st.booleans()),
            "how": "ctor", "name": "h.clf"}


def run_half(case, ctx):
    """One write and one read: writing 65536 rows takes the library several seconds."""
    spec = case["list"]
    res = ctx.ok([["new", "a", spec], ["write", "a", "h.clf", {"gzip": case["gzip"]}], ["getb64", "h.clf"],
                  ["read", "b", "h.clf", case["strict"]], ["lut", "b", 0]])
    d = xmlio.diff(document(ctx, base64.b64decode(res[2]), case["gzip"], "written file"), xmlio.expected(spec))
    if d:
        ctx.fail("written file: " + d)
    want = model.through_file(spec["nodes"][0])["vals"]
    if list(map(xmlio.bits, res[4]["vals"])) != list(map(xmlio.bits, want)):
        ctx.fail("half domain: table values read differ")
    ctx.label("half-domain")
    return True


def tests(tier):
    return [Test("structure", case(), run, 2500, 60000),
            Test("half-domain", half_case(), run_half, 7, 140)]
