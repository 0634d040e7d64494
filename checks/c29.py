import base64
import copy

from hypothesis import strategies as st

from pbt import gen, model, tables, xmlio
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("editing: a list (built, or written and read back) and a sequence of setter calls on it and its nodes at any "
        "depth, with uses (processing, writing, printing) in between. The getters, the written document, the printed "
        "text and the pixels must be those of a list built directly with the final content; each node is compared with "
        "its reference model. paths: references whose paths are set again. Non-trivial when an edit changes the content "
        "of the list.")
ASSUMPTIONS = ["edits keep the list meaningful (range limits in order, tables that fit their encoding, style changes "
               "within a family)", "the flags halfDomain and the paths of references are not set as raw attributes"]


def at(spec, path):
    n = spec
    for i in path:
        n = n["nodes"][i]
    return n


def paths_of(spec, base=()):
    for i, n in enumerate(spec["nodes"]):
        yield list(base) + [i], n
        if n["t"] == "Group":
            for r in paths_of(n, tuple(base) + (i,)):
                yield r


def set_attr(spec, k, v):
    spec["attrs"] = [[a, b] for a, b in spec["attrs"] if a != k] + [[k, v]]


LIST_SETTERS = {"setName": "name", "setID": "id", "setInverseOf": "inverseOf", "setCompCLFversion": "compCLFversion",
                "setNamespace": "xmlns"}
LIMITS = {"setMinInValue": "minIn", "setMaxInValue": "maxIn", "setMinOutValue": "minOut", "setMaxOutValue": "maxOut"}


def apply(spec, e):
    """The effect of an edit on the specification of the list."""
    path, method, args = e[0], e[1], e[2:]
    n = at(spec, path)
    if method in LIST_SETTERS:
        set_attr(spec, LIST_SETTERS[method], args[0])
    elif method == "addProcess":
        n["nodes"].append(copy.deepcopy(args[0]))
    elif method == "addElement":
        if path:
            n.setdefault("descs", []).append(args[1])
        else:
            spec["elems"].append(list(args))
    elif method in ("setInBitDepth", "setOutBitDepth"):
        if not path:
            if not spec["nodes"]:
                return
            n = spec["nodes"][0 if method == "setInBitDepth" else -1]
        n["in" if method == "setInBitDepth" else "out"] = args[0]
    elif method == "setAttribute":
        k, v = args
        if not path:
            set_attr(spec, k, v)
        elif k in ("id", "name", "style", "bypass", "rawHalfs"):
            n[k] = v
        elif k == "interpolation":
            n["interp"] = v
        else:
            n["extra"] = [[a, b] for a, b in n.get("extra", []) if a != k] + [[k, v]]
    elif method in LIMITS:
        n["lim"][LIMITS[method]] = args[0]
    elif method == "setStyle":
        n["style"] = args[0]
    elif method == "setDefaultRange":
        n["defaultRange"] = args[0]
    elif method in ("setSlope", "setOffset", "setPower"):
        n[method[3:].lower()] = list(args)
    elif method == "setSaturation":
        n["sat"] = args[0]
    elif method in ("setGamma", "setLogParams"):
        n["params"].append(list(args))
    elif method == "setExposureContrastPivot":
        n["ecp"] = list(args)
    elif method == "setIndexMaps":
        n["imaps"] = [list(m) for m in args]
    elif method in ("setMatrix", "setArray"):
        if n["t"] == "LUT1D":
            n["ch"] = args[0]
        else:
            n["dims"] = list(args[0])
        n["vals"] = args[1]
        n["enc"] = args[2]
    elif method == "setDynamicParam":
        n.setdefault("dyn", []).append(args[0])
    else:
        raise ValueError(method)


CDL_FAMILY = gen.CDL_STYLES


def range_ok(n):
    lim = dict(n["lim"])
    mi, mo = model.size(n["in"]), model.size(n["out"])
    if n.get("defaultRange"):
        lim = dict({"minIn": 0.0, "maxIn": mi, "minOut": 0.0, "maxOut": mo}, **lim)
    for a, b, m in (("minIn", "maxIn", mi), ("minOut", "maxOut", mo)):
        if a in lim and b in lim and not lim[b] - lim[a] >= 1e-3 * m:
            return False
    return True


def small(vals):
    return all(abs(v) <= 60000 for v in tables.values(vals))


@st.composite
def edit(draw, spec):
    """An edit that keeps the list meaningful, or None."""
    nodes = list(paths_of(spec))
    k = draw(st.integers(0, 9))
    if k < 2 or not nodes:
        m = draw(st.sampled_from(["setName", "setID", "setInverseOf", "setCompCLFversion", "setNamespace",
                                  "setAttribute", "setInBitDepth", "setOutBitDepth", "addElement", "addProcess"]))
        if m == "setNamespace":
            return [[], m, draw(st.sampled_from(["urn:NATAS:ASC:LUT:v1.2", "http://a.b/c?d=e&f", "urn:x"]))]
        if m == "setCompCLFversion":
            return [[], m, draw(st.sampled_from([1.0, 2, "1.2"]))]
        if m == "setAttribute":
            return [[], m, draw(st.sampled_from(["custom", "name", "id"])), draw(gen.attr_text)]
        if m in ("setInBitDepth", "setOutBitDepth"):
            if nodes and spec["nodes"][0 if m == "setInBitDepth" else -1]["t"] == "ColorCorrection":
                return None
            return [[], m, draw(gen.depth)]
        if m == "addElement":
            return [[], m, draw(st.sampled_from(["Description", "InputDescriptor", "OutputDescriptor"])),
                    draw(gen.body_text)]
        if m == "addProcess":
            return [[], m, draw(gen.leaf(meta=draw(st.booleans())))]
        return [[], m, draw(gen.attr_text)]
    path, n = draw(st.sampled_from(nodes))
    t = n["t"]
    if k < 4:
        m = draw(st.sampled_from(["setAttribute", "bypass", "addElement", "setDynamicParam", "setInBitDepth",
                                  "setOutBitDepth"]))
        if m == "bypass":
            return [path, "setAttribute", "bypass", draw(st.booleans())]
        if m == "addElement":
            return [path, m, "Description", draw(gen.body_text)]
        if m == "setDynamicParam":
            return [path, m, draw(st.sampled_from(["EXPOSURE", "CONTRAST", "LUT"]))]
        if t == "ColorCorrection" and (m in ("setInBitDepth", "setOutBitDepth") or m == "setAttribute"):
            return None
        if m in ("setInBitDepth", "setOutBitDepth"):
            return [path, m, draw(gen.depth)]
        return [path, m, draw(st.sampled_from(["id", "name", "custom"])), draw(gen.attr_text)]
    din, dout = n["in"], n["out"]
    if t == "Group":
        return [path, "addProcess", draw(gen.leaf(meta=draw(st.booleans())))]
    if t == "Range":
        m = draw(st.sampled_from(sorted(LIMITS) + ["setStyle", "setDefaultRange"]))
        if m == "setStyle":
            return [path, m, draw(st.sampled_from(["clamp", "noClamp"]))]
        if m == "setDefaultRange":
            return [path, m, draw(st.booleans())]
        size = model.size(din if "In" in m else dout)
        v = draw(st.one_of(gen.r4(-1.0, 2.0).map(lambda x: x * size), st.integers(0, 255), st.sampled_from([0, 1, 0.0])))
        return [path, m, v]
    if t in ("ASCCDL", "ColorCorrection"):
        m = draw(st.sampled_from(["setSlope", "setOffset", "setPower", "setSaturation", "style"]))
        if m == "style":
            if t == "ColorCorrection":
                return None
            return [path, "setAttribute", "style", draw(st.sampled_from(CDL_FAMILY))]
        if m == "setSaturation":
            return [path, m, draw(gen.r4(0.1, 3.0))]
        lo, hi = {"setSlope": (0.1, 4.0), "setOffset": (-0.5, 0.5), "setPower": (0.2, 4.0)}[m]
        return [path, m] + [draw(gen.r4(lo, hi)) for _ in range(3)]
    if t == "Gamma":
        if draw(st.integers(0, 2)) == 0:
            if any(o < 0 for _, o, _ in n["params"]):
                return None
            return [path, "setAttribute", "style", n["style"][:-3] + draw(st.sampled_from(["Fwd", "Rev"]))]
        o = 0.0 if n["style"].startswith("basic") else draw(gen.r4(0.01, 0.3))
        return [path, "setGamma", draw(gen.r4(1.1, 4.0)), o, draw(gen.channel)]
    if t == "Log":
        if draw(st.booleans()):
            return [path, "setAttribute", "style", draw(st.sampled_from(gen.LOG_STYLES))]
        return [path, "setLogParams", draw(gen.r4(0.3, 1.5)), draw(gen.r4(400.0, 1000.0)), draw(gen.r4(10.0, 350.0)),
                draw(gen.r4(0.5, 2.0)), draw(gen.r4(-0.1, 0.3)), draw(gen.channel)]
    if t == "ExposureContrast":
        if draw(st.booleans()):
            return [path, "setAttribute", "style", draw(st.sampled_from(["linear", "video", "log"]))]
        return [path, "setExposureContrastPivot", draw(gen.r4(-3.0, 3.0)), draw(gen.r4(0.2, 3.0)),
                draw(gen.r4(0.05, 2.0))]
    if t == "Matrix":
        s = draw(gen.matrix_node(n=3, din=din, dout=dout))
        return [path, "setMatrix", s["dims"], s["vals"], s.get("enc", "string")]
    if t == "LUT1D":
        m = draw(st.sampled_from(["setArray", "setArray", "setIndexMaps", "rawHalfs", "interpolation"]))
        if m == "rawHalfs":
            on = draw(st.booleans())
            if on and not small(n["vals"]):
                return None
            return [path, "setAttribute", "rawHalfs", on]
        if m == "interpolation":
            return [path, "setAttribute", m, draw(st.sampled_from(["linear", "cubic"]))]
        if m == "setIndexMaps":
            size = len(tables.values(n["vals"])) // n["ch"]
            return [path, m] + draw(gen.index_maps(din, size))
        s = draw(gen.lut1d_node(din=din, dout=dout, maps=False))
        if n.get("rawHalfs") and not small(s["vals"]):
            return None
        if s.get("enc", "string") in model.ENC16 and not small(s["vals"]):
            return None
        return [path, m, s["ch"], s["vals"], s.get("enc", "string")]
    if t == "LUT3D":
        m = draw(st.sampled_from(["setArray", "setArray", "setIndexMaps", "interpolation"]))
        if m == "interpolation":
            return [path, "setAttribute", m, draw(st.sampled_from(["trilinear", "tetrahedral", "linear"]))]
        if m == "setIndexMaps":
            return [path, m] + draw(gen.index_maps(din, n["dims"]))
        s = draw(gen.lut3d_node(din=din, dout=dout, maps=False, maxn=3))
        return [path, m, s["dims"], s["vals"], s.get("enc", "string")]
    return None


def valid(spec):
    for _, n in paths_of(spec):
        if n["t"] == "Range" and not range_ok(n):
            return False
    return True


@st.composite
def case(draw):
    spec = draw(gen.plist(meta=True, min_nodes=1, max_nodes=3))
    cur = copy.deepcopy(spec)
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 2)) == 0:
            steps.append(["use", draw(st.sampled_from(["process", "write", "info", "peek"]))])
        e = draw(edit(cur))
        if e is None:
            continue
        new = copy.deepcopy(cur)
        apply(new, e)
        if not valid(new):
            continue
        cur = new
        steps.append(e)
    vals, stride = draw(gen.pixels("16f", 3, 4, 2, -1.0, 2.0, long=False))
    return {"list": spec, "steps": steps, "vals": vals, "stride": stride or len(vals),
            "start": draw(st.sampled_from(["built", "built", "read", "gz"]))}


def queries(spec):
    """Getter calls and what they must return."""
    out = []
    a = {k: v for k, v in spec["attrs"]}
    for g, k in (("getName", "name"), ("getID", "id"), ("getInverseOf", "inverseOf"),
                 ("getCompCLFversion", "compCLFversion"), ("getNamespace", "xmlns")):
        out.append([[], g, [], a.get(k)])
        out.append([[], "getAttribute", [k], a.get(k)])
    out.append([[], "getAttribute", ["custom"], a.get("custom")])
    out.append([[], "len", [], [len(spec["nodes"]), len(spec["nodes"]), True]])
    if spec["nodes"]:
        for g, k, n in (("getInBitDepth", "in", spec["nodes"][0]), ("getOutBitDepth", "out", spec["nodes"][-1])):
            if n["t"] != "ColorCorrection":
                out.append([[], g, [], n[k]])
    for path, n in [([], spec)] + list(paths_of(spec)):
        if "nodes" in n:
            names = [k.get("name", "") if k["t"] != "ColorCorrection" else None for k in n["nodes"]]
            for w in set(x for x in names if x) | {"no such name"}:
                out.append([path, "getProcess", [w], names.index(w) if w in names else None])
    for path, n in paths_of(spec):
        t = n["t"]
        if t != "ColorCorrection":
            out.append([path, "getInBitDepth", [], n["in"]])
            out.append([path, "getOutBitDepth", [], n["out"]])
            out.append([path, "getAttribute", ["name"], n.get("name", "")])
        out.append([path, "getAttribute", ["id"], n.get("id", "")])
        for d in ("EXPOSURE", "CONTRAST", "PIVOT", "LUT", "GAMMA"):
            out.append([path, "getDynamicParam", [d], d in n.get("dyn", [])])
        for f in ("bypass", "rawHalfs", "defaultRange", "halfDomain"):
            out.append([path, "getFlag", [f], bool(n.get(f))])
        for k, v in n.get("extra", []):
            out.append([path, "getAttribute", [k], v])
        if t in ("ASCCDL", "Gamma", "Log", "ExposureContrast") or n.get("style"):
            out.append([path, "getAttribute", ["style"], n["style"]])
        if t == "Range":
            for k in ("minIn", "maxIn", "minOut", "maxOut"):
                v = n["lim"].get(k)
                out.append([path, "getValueElement", [k + "Value"], v])
        if t in ("LUT1D", "LUT3D"):
            vals = tables.values(n["vals"])
            out.append([path, "getLUTDimensions", [],
                        [len(vals) // n["ch"], n["ch"]] if t == "LUT1D" else list(n["dims"]) + [3]])
            out.append([path, "getLUTValues", [], [float(v) for v in vals]])
            for c, m in enumerate(n.get("imaps") or []):
                out.append([path, "getIndexMapDimensions", [c], len(m[0])])
                out.append([path, "getIndexMapValues", [c], [[float(x) for x in m[0]], [float(x) for x in m[1]]]])
    return out


def same_value(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(a, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return bits(float(a)) == bits(float(b))
    if type(a) != type(b):      # a number that was read as text
        return "%s" % a == "%s" % b
    return a == b


def through_attrs(spec):
    """List attributes are text once they went through a file."""
    spec["attrs"] = [[k, "%s" % v] for k, v in spec["attrs"]]
    return spec


def lines(info):
    """Printed lines in any order; a flag that is off says as much as one that is absent."""
    return sorted(s for s in info.split("\n") if not (
        s.split()[-1:] == ["False"] and s.split()[2:3] and s.split()[2] in xmlio.FLAGS))


def document(ctx, data, what):
    try:
        return xmlio.parse(data), xmlio.ET.fromstring(data).tag
    except (xmlio.ET.ParseError, xmlio.BadDocument, ValueError, KeyError) as e:
        ctx.fail("%s is not a CLF document: %s: %s" % (what, type(e).__name__, e))


def run(case, ctx):
    vals, stride = case["vals"], case["stride"]
    spec = copy.deepcopy(case["list"])
    script = [["new", "a", case["list"]]]
    if case["start"] != "built":
        script += [["write", "a", "start.clf", {"gzip": case["start"] == "gz"}], ["read", "a", "start.clf", True]]
        spec = through_attrs(dict(spec, nodes=[model.through_file(n) for n in spec["nodes"]]))
    before = copy.deepcopy(spec)
    for s in case["steps"]:
        if s[0] == "use":
            script.append({"process": ["process", "a", vals, stride], "write": ["write", "a", "used.clf"],
                           "info": ["info", "a"], "peek": ["nodes", "a"]}[s[1]])
        else:
            script.append(["edit", "a"] + s)
            apply(spec, s)
            ctx.label(s[1])
    asked = queries(spec)
    script += [["peek", "a", [q[:3] for q in asked]], ["info", "a"], ["process", "a", vals, stride],
               ["write", "a", "end.clf"], ["getb64", "end.clf"], ["read", "ra", "end.clf", True],
               ["process", "ra", vals, stride]]
    first = len(script) - 7
    script += [["new", "b", spec], ["info", "b"], ["process", "b", vals, stride], ["write", "b", "b.clf"],
               ["read", "rb", "b.clf", True], ["process", "rb", vals, stride], ["info", "rb"], ["info", "ra"]]
    leaves = [(p, n) for p, n in paths_of(spec) if n["t"] != "Group"]
    at_first = len(script)
    for p, n in leaves:
        script.append(["at", "a", p, vals, stride])
    res = ctx.ok(script)
    for q, got in zip(asked, res[first]):
        if not same_value(got, q[3]):
            ctx.fail("%s(%s) of node %r gives %s, expected %s" % (
                q[1], ", ".join(map(repr, q[2])), q[0], str(got)[:300], str(q[3])[:300]))
    info_a, pix_a, data, pix_ra = res[first + 1], res[first + 2], res[first + 4], res[first + 6]
    info_b, pix_b, pix_rb, info_rb, info_ra = [res[first + 7 + i] for i in (1, 2, 5, 6, 7)]
    doc, tag = document(ctx, base64.b64decode(data), "file written after the edits")
    want = xmlio.expected(spec)
    ns = want["attrs"].pop("xmlns", None)
    d = xmlio.diff(doc, want)
    if d:
        ctx.fail("file written after the edits: " + d)
    if tag != ("{%s}ProcessList" % ns if ns else "ProcessList"):
        ctx.fail("file written after the edits: root element %s, expected namespace %s" % (tag, ns))
    if list(map(bits, pix_ra)) != list(map(bits, pix_rb)):
        ctx.fail("edited list, written and read, gives %r; the list built that way %r" % (pix_ra, pix_rb))
    if lines(info_ra) != lines(info_rb):
        ctx.fail("edited list, written and read, prints %r; the list built that way %r" % (info_ra, info_rb))
    if case["start"] == "built":
        if list(map(bits, pix_a)) != list(map(bits, pix_b)):
            ctx.fail("edited list gives %r; the list built that way %r" % (pix_a, pix_b))
        if lines(info_a) != lines(info_b):
            ctx.fail("edited list prints %r; the list built that way %r" % (info_a, info_b))
    for (p, n), got in zip(leaves, res[at_first:]):
        model.check_pixels(ctx, n, vals, stride, got, "edited node %r" % (p,))
    ctx.label(case["start"])
    return xmlio.expected(spec) != xmlio.expected(before)


# --------------------------------------------------------------------------

FILES = ["r1.clf", "sub/r2.clf", "r3.clf"]


@st.composite
def ref_case(draw):
    files = [draw(gen.plist(min_nodes=1, max_nodes=2, groups=False)) for _ in FILES]

    def target():
        k = draw(st.integers(0, 5))
        if k == 0:
            return ["no.clf", "", ""]
        if k == 2:
            return ["", draw(st.sampled_from(["sub", ""])), "al"]
        if k == 1:
            return ["r2.clf", "sub", draw(st.sampled_from(["", "al"]))]
        return [draw(st.sampled_from(FILES)), "", draw(st.sampled_from(["", "", "al"]))]
    vals, stride = draw(gen.pixels("16f", 3, 4, 2, -1.0, 2.0, long=False))
    return {"files": files, "first": target(), "then": [target() for _ in range(draw(st.integers(1, 3)))],
            "vals": vals, "stride": stride or len(vals), "start": draw(st.sampled_from(["built", "read"])),
            "name": draw(st.sampled_from(["", "ref"])), "used": draw(st.booleans()), "group": draw(st.booleans())}


def run_ref(case, ctx):
    vals, stride = case["vals"], case["stride"]
    script = [["put", "sub/keep", ""]]
    for f, s in zip(FILES, case["files"]):
        script += [["new", "f", s], ["write", "f", f]]

    def main(t):
        n = {"t": "Reference", "in": "16f", "out": "8i", "name": case["name"], "path": t[0], "basePath": t[1],
             "alias": t[2]}
        n = {"t": "Group", "in": "16f", "out": "16f", "nodes": [n]} if case["group"] else n
        return {"attrs": [], "elems": [], "nodes": [n]}
    where = [0, 0] if case["group"] else [0]
    script.append(["new", "a", main(case["first"])])
    if case["start"] == "read":
        script += [["write", "a", "m.clf"], ["read", "a", "m.clf", True]]
    for t in case["then"]:
        if case["used"]:
            script += [["process", "a", vals, stride], ["write", "a", "used.clf", {"selfContained": True}]]
        script.append(["edit", "a", where, "setPaths"] + t)
    last = case["then"][-1]
    key = (last[1] + "/" if last[1] else "") + last[0]
    # the file is read when the path is set, the process that reads the file again must find it too
    first = len(script)
    script += [["process", "a", vals, stride], ["write", "a", "m.clf"], ["getb64", "m.clf"], ["read", "b", "m.clf", True],
               ["process", "b", vals, stride], ["write", "a", "s.clf", {"selfContained": True}], ["getb64", "s.clf"],
               ["peek", "a", [[where, "getAttribute", [k]] for k in ("path", "basePath", "alias")]]]
    target = None
    if key in FILES:
        target = case["files"][FILES.index(key)]
        script += [["read", "t", key, True], ["process", "t", vals, stride]]
    res = ctx.ok(script)
    got = res[first:]
    want = res[-1] if target else [model.f32(v) for v in vals]
    for what, g in (("reference", got[0]), ("reference, written and read", got[4])):
        if list(map(bits, g)) != list(map(bits, want)):
            ctx.fail("%s to %r gives %r, expected %r" % (what, last, g, want))
    d = xmlio.diff(document(ctx, base64.b64decode(got[2]), "written file")[0], xmlio.expected(main(last)))
    if d:
        ctx.fail("written file: " + d)
    flat = main(last)
    if target:
        holder = flat["nodes"][0] if case["group"] else flat
        holder["nodes"] = [model.through_file(n) for n in target["nodes"]]
    d = xmlio.diff(document(ctx, base64.b64decode(got[6]), "self-contained file")[0], xmlio.expected(flat))
    if d:
        ctx.fail("self-contained file: " + d)
    if [x or "" for x in got[7]] != last:
        ctx.fail("paths %r, expected %r" % (got[7], last))
    ctx.label("found" if target else "missing")
    return last != case["first"]


def tests(tier):
    return [Test("editing", case(), run, 1200, 40000), Test("paths", ref_case(), run_ref, 300, 10000)]
