import base64
import os

from hypothesis import strategies as st

from pbt import gen, model, xmlio
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("composition: a list with nested groups and bypass flags (Autodesk features on or off) against the flat list of "
        "its nodes, whose every step is compared with the reference model. references: a main list and up to three "
        "files that refer to each other, with missing files and bypassed references at any depth, against the flat list "
        "of the nodes in use; self-contained files must have exactly those nodes and process identically. Non-trivial "
        "when there is a group, reference or bypassed node and pixels change.")
ASSUMPTIONS = ["references do not form cycles",
               "no node next to a reference, and no end node of a referenced file, is bypassed (what it adapts to would "
               "depend on the depths declared by the reference)",
               "comparison tolerance of a few single precision rounding steps per node"]

PLAIN_CDL = ["Fwd", "Rev", "FwdNoClamp", "RevNoClamp"]


def same(a, b):
    return len(a) == len(b) and all(x == y or bits(x) == bits(y) for x, y in zip(a, b))


def walk(nodes):
    for n in nodes:
        yield n
        if n["t"] == "Group":
            for k in walk(n["nodes"]):
                yield k


@st.composite
def sprinkle(draw, nodes, flags=(True, False, "True", "False", "true", "false")):
    for n in walk(nodes):
        if draw(st.integers(0, 3)) == 0:
            n["bypass"] = draw(st.sampled_from(flags))
    return nodes


@st.composite
def nested(draw, depth=2, lo=1, hi=5, encs=True):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        if depth and draw(st.integers(0, 3)) == 0:
            out.append({"t": "Group", "in": draw(gen.depth), "out": draw(gen.depth),
                        "nodes": draw(nested(depth - 1, 0, 3))})
        else:
            out.append(draw(gen.leaf()))
    return out


@st.composite
def compose_case(draw):
    nodes = draw(sprinkle(draw(nested())))
    autodesk = draw(st.integers(0, 4)) != 0
    if not autodesk:
        for n in walk(nodes):
            if n["t"] == "ASCCDL":
                n["style"] = draw(st.sampled_from(PLAIN_CDL))
    vals, stride = draw(gen.pixels(nodes[0]["in"], 3, 5, 2, -1.0, 2.0, long=False))
    return {"nodes": nodes, "autodesk": autodesk, "vals": vals, "stride": stride, "verbose": draw(st.booleans())}


def run_compose(case, ctx):
    nodes, vals, stride = case["nodes"], case["vals"], case["stride"]
    flat = model.flatten(nodes, autodesk=case["autodesk"])
    opts = {"verbose": True} if case["verbose"] else {}
    res = ctx.ok([["feat", 0xf if case["autodesk"] else 0x2], ["new", "a", {"nodes": nodes}],
                  ["process", "a", vals, stride, opts], ["new", "f", {"nodes": flat}], ["steps", "f", vals, stride],
                  ["process", "f", vals, stride]])
    steps = res[4]
    model.check_steps(ctx, flat, vals, stride, steps, "flattened")
    last = steps[-1] if steps else [model.f32(v) for v in vals]
    if not same(res[5], last):
        ctx.fail("flat list gives %r, its nodes one after the other %r" % (res[5], last))
    if not same(res[2], last):
        ctx.fail("list gives %r, its nodes in place give %r" % (res[2], last))
    odd = any(n["t"] == "Group" or "bypass" in n for n in walk(nodes))
    ctx.label("autodesk" if case["autodesk"] else "no autodesk")
    return odd and not same(res[2], vals)


# --------------------------------------------------------------------------

def key(n):
    if n["t"] != "Reference":
        return None
    base, path = n.get("basePath", ""), n.get("path", "")
    p = path if path.startswith("{work}") or not base else base + "/" + path if path else base
    p = p.replace("//", "/").replace("{work}/", "")
    return p[len("sub/../"):] if p.startswith("sub/../") else p[2:] if p.startswith("./") else p


def live(n, files):
    return n["t"] == "Reference" and key(n) in files and not model.is_on(n.get("bypass"))


@st.composite
def ref_nodes(draw, targets, depth=1, lo=0, hi=4):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.integers(0, 5))
        if k < 2:
            path = draw(st.sampled_from(targets + ["missing.clf"]))
            n = {"t": "Reference", "in": draw(gen.depth), "out": draw(gen.depth), "path": path}
            if "/" in path and draw(st.booleans()):
                n["basePath"], n["path"] = path.split("/")
            k = draw(st.integers(0, 9))
            if k == 0:
                # an absolute path stands for itself, whatever the base path is
                n["path"] = "{work}/" + path
                n["basePath"] = draw(st.sampled_from(["", "sub", "nowhere", "{work}/sub"]))
            elif k == 1:
                n["basePath"] = "{work}" + ("/" + n["basePath"] if n.get("basePath") else "") + \
                    draw(st.sampled_from(["", "/"]))
            elif k == 2:
                n["path"], n["basePath"] = draw(st.sampled_from([["./" + path, ""], ["sub/../" + path, ""],
                                                                  ["../" + path, "sub"]]))
            if draw(st.integers(0, 4)) == 0:
                n["alias"] = "al"
                if draw(st.integers(0, 2)) == 0:
                    # only an alias: nothing to read, whether the base path is there or not
                    n["path"], n["basePath"] = "", draw(st.sampled_from(["sub", "", "nowhere"]))
            if draw(st.integers(0, 4)) == 0:
                n["bypass"] = draw(st.sampled_from([True, False]))
            n["name"] = draw(st.sampled_from(["", "ref", "r2"]))
        elif k == 2 and depth:
            n = {"t": "Group", "in": draw(gen.depth), "out": draw(gen.depth),
                 "nodes": draw(ref_nodes(targets, depth - 1, 0, 3))}
        else:
            n = draw(gen.leaf())
        out.append(n)
    return out


def add_bypass(draw, nodes, ends, files):
    """Bypass flags where they mean the same before and after references are replaced."""
    for i, n in enumerate(nodes):
        if n["t"] == "Group":
            add_bypass(draw, n["nodes"], True, files)
        near = [m for m in nodes[max(0, i - 1):i + 2] if m is not n]
        if "bypass" in n or draw(st.integers(0, 3)):
            pass
        else:
            n["bypass"] = True
        if model.is_on(n.get("bypass")):
            at_end = i in (0, len(nodes) - 1)
            if any(m["t"] == "Reference" for m in near) or (at_end and not ends) or n["t"] == "Reference" and not ends:
                n.pop("bypass")
    return nodes


@st.composite
def ref_case(draw):
    names = ["r1.clf", "sub/r2.clf", "r3.clf"][:draw(st.integers(1, 3))]
    files = []
    for i, name in enumerate(names):
        nodes = draw(ref_nodes([f[0] for f in files], 1, 0 if i else 1, 3))
        files.append([name, add_bypass(draw, nodes, False, names), draw(st.booleans())])
    nodes = draw(ref_nodes(names, 2, 1, 4))
    add_bypass(draw, nodes, True, names)
    if not any(n["t"] == "Reference" for n in walk(nodes)):
        nodes.append({"t": "Reference", "in": "16f", "out": "16f", "path": names[-1]})
        for n in nodes[-2:]:
            n.pop("bypass", None)
    vals, stride = draw(gen.pixels(nodes[0]["in"], 3, 4, 2, -1.0, 2.0, long=False))
    return {"files": files, "nodes": nodes, "vals": vals, "stride": stride, "gzip": draw(st.booleans())}


def resolve(nodes, files, stored):
    """Nodes with references keyed for flatten()."""
    out = []
    for n in nodes:
        n = model.through_file(n) if stored else dict(n)
        if n["t"] == "Reference":
            n["path"] = key(n)
            n.pop("basePath", None)
        if n["t"] == "Group":
            n["nodes"] = resolve(n["nodes"], files, stored)
        out.append(n)
    return out


def inline(nodes, files):
    """What a self-contained file must hold."""
    out = []
    for n in nodes:
        if live(n, files):
            out.extend(inline(files[key(n)], files))
        elif n["t"] == "Group":
            out.append(dict(n, nodes=inline(n["nodes"], files)))
        else:
            out.append(n)
    return out


def run_refs(case, ctx):
    nodes, vals, stride = case["nodes"], case["vals"], case["stride"]
    files = {name: ns for name, ns, _ in case["files"]}
    script = [["put", "sub/keep", ""]]
    for name, ns, gz in case["files"]:
        script += [["new", "r", {"nodes": ns}], ["write", "r", name, {"gzip": gz}]]
    refs = {p: resolve(ns, files, True) for p, ns in files.items()}
    flat = model.flatten(resolve(nodes, files, True), refs)
    main = len(script)
    script += [["new", "m", {"nodes": nodes}], ["write", "m", "main.clf"], ["read", "a", "main.clf"],
               ["process", "a", vals, stride], ["write", "a", "plain1.clf"],
               ["write", "a", "self.clf", {"selfContained": True, "gzip": case["gzip"]}],
               ["write", "a", "plain2.clf"], ["getb64", "plain1.clf"], ["getb64", "plain2.clf"],
               ["read", "s", "self.clf", True], ["process", "s", vals, stride], ["write", "s", "s.clf"],
               ["getb64", "s.clf"], ["process", "a", vals, stride],
               ["write", "m", "self2.clf", {"selfContained": True}], ["getb64", "self2.clf"],
               ["new", "f", {"nodes": flat}], ["write", "f", "f.clf"], ["read", "g", "f.clf"],
               ["steps", "g", vals, stride], ["process", "m", vals, stride]]
    res = ctx.ok(script)[main:]
    steps = res[19]
    model.check_steps(ctx, [model.through_file(n) for n in flat], vals, stride, steps, "flattened")
    last = steps[-1] if steps else [model.f32(v) for v in vals]
    if not same(res[3], last):
        ctx.fail("list with references gives %r, the nodes in place give %r" % (res[3], last))
    if not same(res[10], last):
        ctx.fail("self-contained file gives %r, the nodes in place give %r" % (res[10], last))
    if res[7] != res[8] or not same(res[3], res[13]):
        ctx.fail("writing a self-contained file changed the list")
    own = [n for n in walk(nodes) if n["t"] in ("LUT1D", "LUT3D", "Matrix")]
    if not own:
        ctx.label("built in memory")
        if not same(res[20], res[3]):
            ctx.fail("the list built in memory gives %r, the same list read %r" % (res[20], res[3]))
    for what, data, stored in (("read from a self-contained file", res[12], True), ("self-contained file", res[15], False)):
        try:
            doc = xmlio.parse(base64.b64decode(data))
        except (xmlio.ET.ParseError, xmlio.BadDocument) as e:
            ctx.fail("%s is not a CLF document: %s" % (what, e))
        sub = {p: [model.through_file(n) for n in ns] for p, ns in files.items()}
        top = [model.through_file(n) for n in nodes] if stored else nodes
        d = xmlio.diff(doc, xmlio.expected({"nodes": inline(top, sub)}))
        if d:
            ctx.fail("%s: %s" % (what, d))
    ctx.label("live refs" if any(live(n, files) for n in walk(nodes)) else "dead refs")
    return any(live(n, files) for n in walk(nodes)) and not same(res[3], vals)


def tests(tier):
    return [Test("composition", compose_case(), run_compose, 2000, 50000),
            Test("references", ref_case(), run_refs, 1000, 25000)]
