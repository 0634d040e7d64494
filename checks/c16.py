"""C16: feature sets and strict reading."""
import base64

from hypothesis import strategies as st

from pbt import gen, xmlio
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("reading: documents with any nodes, dynamic parameters and unknown elements at any group depth, read strictly "
        "or not under every combination of feature sets; the outcome must be an error exactly when the model says so "
        "(of one of the kinds present), and otherwise the list must hold the known nodes and process bit for bit like "
        "the document without unknown elements (and, with Autodesk off, without bypass flags). writing: lists with "
        "encoded tables at any depth or in referenced files, plain, compressed or self-contained, over an existing file, "
        "under every combination of feature sets. Non-trivial when strict reading has something to refuse or accept, or "
        "a write is refused.")
ASSUMPTIONS = ["the CDL style keywords of v1.2 are not processed with the Autodesk set off",
               "strictness does not extend to files that are referred to"]

AUTODESK, DUIKER = 1, 2
FEATURES = [0, 1, 2, 3, 0xf, 0xd, 0xe, 0xc]
AUTO_TYPES = ("ExposureContrast", "Gamma", "Log", "Reference")
PLAIN_CDL = ["Fwd", "Rev", "FwdNoClamp", "RevNoClamp"]
UNKNOWN = ["Vendor", "LUT2D", "Ranges", "matrix", "Exposure", "Groups", "x1", "ProcessNode", "Process_Node",
           "ProcessList"]


def walk(nodes):
    for n in nodes:
        yield n
        for k in walk(n.get("nodes", [])):
            yield k


@st.composite
def nodes_(draw, depth, lo, hi):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.integers(0, 11))
        if k < 7:
            n = draw(gen.leaf(kinds=["Range", "Matrix", "LUT1D", "LUT3D", "ASCCDL", "ColorCorrection"]))
            if n["t"] == "ASCCDL":
                n["style"] = draw(st.sampled_from(PLAIN_CDL))
        elif k < 9:
            n = draw(gen.leaf(kinds=["Gamma", "Log", "ExposureContrast"]))
            if draw(st.integers(0, 7)) == 0:
                n = {"t": "Reference", "in": "16f", "out": "16f", "path": draw(st.sampled_from(["no.clf", "odd.clf"]))}
        elif k == 9:
            n = {"t": "Unknown", "tag": draw(st.sampled_from(UNKNOWN)), "nodes": []}
            if draw(st.booleans()):
                n["nodes"] = [{"t": "Range", "in": "16f", "out": "16f", "lim": {"minIn": 0.5, "minOut": 0.25}}]
        else:
            n = {"t": "Group", "in": draw(gen.depth), "out": draw(gen.depth),
                 "nodes": draw(nodes_(depth - 1, 0, 3)) if depth else []}
        if n["t"] != "Unknown":
            if draw(st.integers(0, 9)) == 0:
                n["dyn"] = ["EXPOSURE"]
            if draw(st.integers(0, 5)) == 0:
                n["bypass"] = draw(st.booleans())
        out.append(n)
    return out


@st.composite
def read_case(draw):
    return {"nodes": draw(nodes_(2, 1, 3)), "feat": draw(st.sampled_from(FEATURES)),
            "strict": draw(st.integers(0, 3)) > 0, "gzip": draw(st.integers(0, 5)) == 0,
            "how": draw(st.sampled_from(["ctor", "readFile"])), "seed": draw(st.integers(0, 99)),
            "vals": [0.25, 0.5, 0.75, 1.5, -0.25, 1.0]}


def refusals(nodes, feat):
    out = set()
    for n in nodes:
        t = n["t"]
        if t == "Unknown":
            out.add("UnknownProcessNodeError")
            continue
        if not feat & AUTODESK and (t in AUTO_TYPES or n.get("dyn")):
            out.add("UnsupportedExtensionError")
        if not feat & DUIKER and t == "Group":
            out.add("UnsupportedExtensionError")
        out |= refusals(n.get("nodes", []), feat)
    return out


def known(nodes, keep_bypass):
    out = []
    for n in nodes:
        if n["t"] == "Unknown":
            continue
        n = dict(n)
        if not keep_bypass:
            n.pop("bypass", None)
        if "nodes" in n:
            n["nodes"] = known(n["nodes"], keep_bypass)
        out.append(n)
    return out


def run_read(case, ctx):
    nodes, feat, vals = case["nodes"], case["feat"], case["vals"]
    gz = case["gzip"] and feat & DUIKER
    doc = xmlio.foreign({"nodes": nodes}, {"comments": case["seed"] % 3 == 0}, case["seed"])
    clean = xmlio.foreign({"nodes": known(nodes, feat & AUTODESK)}, {})
    odd = xmlio.foreign({"nodes": [{"t": "Unknown", "tag": "Odd"}, {"t": "Gamma", "in": "16f", "out": "16f",
                                                                    "style": "basicFwd", "params": [[2.0, 0.0, None]]}]}, {})
    script = [["put", "odd.clf", base64.b64encode(odd).decode(), "b64"],
              ["put", "a.clf", base64.b64encode(doc).decode(), "b64"],
              ["put", "c.clf", base64.b64encode(clean).decode(), "b64"]]
    if gz:
        script.append(["gzipfile", "a.clf", "a.clf"])
    pre = len(script)
    script += [["feat", feat], ["getfeat"], ["read", "a", "a.clf", case["strict"], case["how"]],
               ["nodes", "a"], ["process", "a", vals, 3], ["tree", "a"],
               ["feat", 0xf], ["read", "c", "c.clf", True], ["nodes", "c"], ["process", "c", vals, 3]]
    res = ctx.run(script)
    for i in list(range(pre)) + [pre, pre + 1] + list(range(pre + 6, len(script))):
        if "exc" in res[i]:
            ctx.fail("%s failed: %s" % (str(script[i])[:200], res[i]))
    if res[pre + 1]["ok"] != feat:
        ctx.fail("feature set %r was set, %r is in force" % (feat, res[pre + 1]["ok"]))
    read, nod, proc = res[pre + 2], res[pre + 3], res[pre + 4]
    want = refusals(nodes, feat) if case["strict"] else set()
    what = "reading %s with features 0x%x" % ("strictly" if case["strict"] else "leniently", feat)
    if want:
        ctx.label("refused")
        if "exc" not in read:
            ctx.fail("%s succeeded, expected %s" % (what, " or ".join(sorted(want))))
        if not want & set(read["mro"]):
            ctx.fail("%s raised %s (%s), expected %s" % (what, read["exc"], read["msg"], " or ".join(sorted(want))))
        return True
    if "exc" in read:
        ctx.fail("%s raised %s (%s) although there is nothing to refuse" % (what, read["exc"], read["msg"]))
    for r in (nod, proc):
        if "exc" in r:
            ctx.fail("after %s: %s: %s (at %s)" % (what, r["exc"], r["msg"], r["where"]))
    if nod["ok"]["types"] != res[pre + 8]["ok"]["types"]:
        ctx.fail("%s gives nodes %r, expected %r" % (what, nod["ok"]["types"], res[pre + 8]["ok"]["types"]))
    if list(map(bits, proc["ok"])) != list(map(bits, res[pre + 9]["ok"])):
        ctx.fail("%s: processing gives %r, the known nodes%s give %r" % (
            what, proc["ok"], "" if feat & AUTODESK else " without bypass", res[pre + 9]["ok"]))
    ctx.label("accepted strict" if case["strict"] else "lenient")
    return case["strict"] or any(n["t"] == "Unknown" for n in walk(nodes)) or feat & 3 != 3


# --------------------------------------------------------------------------

def has_enc(nodes, files, selfc):
    for n in nodes:
        if n.get("enc", "string") != "string":
            return True
        if n["t"] == "Group" and has_enc(n["nodes"], files, selfc):
            return True
        if n["t"] == "Reference" and selfc and n.get("path") in files and n.get("bypass") is not True \
                and has_enc(files[n["path"]], files, selfc):
            return True
    return False


@st.composite
def write_nodes(draw, depth, lo, hi, refs):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.integers(0, 7))
        if k == 0 and depth:
            out.append({"t": "Group", "in": "16f", "out": "16f", "nodes": draw(write_nodes(depth - 1, 0, 2, refs))})
        elif k == 1 and refs:
            out.append({"t": "Reference", "in": "16f", "out": "16f", "path": draw(st.sampled_from(["r.clf", "no.clf"]))})
            if draw(st.integers(0, 3)) == 0:
                out[-1]["bypass"] = True
        else:
            n = draw(gen.leaf(kinds=["Matrix", "LUT1D", "LUT3D", "Range", "Gamma"]))
            if n["t"] in ("Matrix", "LUT1D", "LUT3D") and draw(st.integers(0, 2)) == 0:
                n.pop("enc", None)
            out.append(n)
    return out


@st.composite
def write_case(draw):
    return {"ref": draw(write_nodes(0, 1, 2, False)), "nodes": draw(write_nodes(2, 1, 3, True)),
            "feat": draw(st.sampled_from(FEATURES)), "gzip": draw(st.integers(0, 2)) == 0,
            "selfContained": draw(st.booleans()), "exists": draw(st.booleans())}


def run_write(case, ctx):
    nodes, feat = case["nodes"], case["feat"]
    files = {"r.clf": case["ref"]}
    opts = {"gzip": case["gzip"], "selfContained": case["selfContained"]}
    script = [["new", "r", {"nodes": case["ref"]}], ["write", "r", "r.clf"], ["new", "a", {"nodes": nodes}],
              ["write", "a", "ref.clf", opts], ["gunzip" if case["gzip"] else "get", "ref.clf"]]
    if case["exists"]:
        script.append(["put", "out.clf", "precious"])
    pre = len(script)
    script += [["feat", feat], ["write", "a", "out.clf", opts], ["get", "out.clf"],
               ["gunzip" if case["gzip"] else "get", "out.clf"], ["ls"], ["feat", 0xf], ["write", "a", "last.clf", opts],
               ["gunzip" if case["gzip"] else "get", "last.clf"]]
    res = ctx.run(script)
    for i in list(range(pre)) + [pre + 5, pre + 6, pre + 7]:
        if "exc" in res[i]:
            ctx.fail("%s failed: %s" % (str(script[i])[:200], res[i]))
    w, now, content, ls = res[pre + 1:pre + 5]
    refused = not feat & DUIKER and (case["gzip"] or has_enc(nodes, files, case["selfContained"]))
    what = "writing %s with features 0x%x" % (opts, feat)
    if refused:
        ctx.label("refused")
        if "exc" not in w:
            ctx.fail("%s succeeded, expected UnsupportedExtensionError" % what)
        if "UnsupportedExtensionError" not in w["mro"]:
            ctx.fail("%s raised %s (%s), expected UnsupportedExtensionError" % (what, w["exc"], w["msg"]))
        if now["ok"] != ({"text": "precious"} if case["exists"] else None):
            ctx.fail("%s was refused but left %r (existed: %s)" % (what, now["ok"], case["exists"]))
        if sorted(f for f in ls["ok"] if f != "out.clf") != ["r.clf", "ref.clf"]:
            ctx.fail("%s was refused but left files %r" % (what, ls["ok"]))
    else:
        ctx.label("written")
        if "exc" in w:
            ctx.fail("%s raised %s (%s)" % (what, w["exc"], w["msg"]))
        if content.get("ok") != res[4]["ok"]:
            ctx.fail("%s gives a file that differs from the one written with all features" % what)
    if res[pre + 7]["ok"] != res[4]["ok"]:
        ctx.fail("after %s the list is written differently" % what)
    return refused or feat & 3 != 3


def tests(tier):
    return [Test("reading", read_case(), run_read, 2000, 60000),
            Test("writing", write_case(), run_write, 900, 25000)]
