"""C26: printed information shows the content of the file."""
import math
import re

from hypothesis import strategies as st

from pbt import gen, model, tables, xmlio
from pbt.core import Test

RULE = ("A case is a list of any nodes with any metadata, groups, references to a second generated file and tables of "
        "any size, printed from the library, from a list read from a file, or by the clfinfo script. The text is cut at "
        "the lines that announce a node; the nodes must be those of the list in preorder (those of a referenced file "
        "after the reference), and each part must show the node's attributes, limits, descriptions, dynamic parameters, "
        "effective parameters per channel, index maps, table dimensions, and the first and last rows of the table (all "
        "rows unless it says that some are left out). The list must have the same XML and give the same pixels after "
        "printing. Non-trivial when there are at least two nodes.")
ASSUMPTIONS = ["numbers may be printed with nine decimals",
               "tables of integer depths may be printed as whole numbers (an error of less than one)"]

NUM = re.compile(r"[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)")


@st.composite
def case(draw):
    spec = draw(gen.plist(meta=True, min_nodes=1, max_nodes=4, bypass=True))
    ref = None
    if draw(st.integers(0, 2)) == 0:
        ref = draw(gen.plist(meta=True, min_nodes=1, max_nodes=3))
        r = {"t": "Reference", "in": "16f", "out": "16f", "path": "r.clf"}
        draw(gen.common(r, True))
        spec["nodes"].insert(draw(st.integers(0, len(spec["nodes"]))), r)
    return {"list": spec, "ref": ref, "how": draw(st.sampled_from(["library", "library", "read", "clfinfo"])),
            "short": draw(st.booleans()), "gzip": draw(st.booleans())}


def walk(nodes, ref):
    for n in nodes:
        yield n
        if n["t"] == "Group":
            for k in walk(n["nodes"], ref):
                yield k
        elif n["t"] == "Reference":
            yield "list"
            for k in walk([model.through_file(k) for k in ref["nodes"]], None):
                yield k


def numbers(t):
    return [float(x) for x in NUM.findall(t)]


def near(g, w, loose=0.0):
    if w != w or g != g:
        return w != w and g != g
    if math.inf in (abs(w), abs(g)):
        return w == g or abs(w) > 3e38
    return abs(g - w) <= 5.1e-10 + 2e-7 * abs(w) + loose


def blocks(lines):
    """[(kind, dims, rows before the dots, rows after or None)] of arrays and index maps."""
    out, i = [], 0
    while i < len(lines):
        kind = lines[i].strip()
        if kind not in ("Array", "IndexMap"):
            i += 1
            continue
        m = re.match(r"\s*(?:Dimensions|Length) : (.*)$", lines[i + 1])
        if not m or lines[i + 2].strip() != "Values":
            i += 1
            continue
        dims, rows, after = [int(x) for x in numbers(m.group(1))], [], None
        i += 3
        while i < len(lines):
            t = lines[i].strip()
            if t == "...":
                after = []
            elif kind == "IndexMap" and t.startswith("map :"):
                rows = [numbers(p) for p in t[5:].split()]
            elif t and not NUM.sub("", t).replace(",", "").strip():
                (rows if after is None else after).append(numbers(t))
            else:
                break
            i += 1
        out.append((kind, dims, rows, after))
    return out


def check_rows(ctx, what, rows, after, want, loose=0.0):
    if after is None:
        pairs = list(zip(rows, want))
        if len(rows) != len(want):
            ctx.fail("%s: %d rows shown, there are %d" % (what, len(rows), len(want)))
    else:
        if not rows or not after or len(rows) + len(after) >= len(want) + 1:
            ctx.fail("%s: %d and %d rows shown of %d" % (what, len(rows), len(after), len(want)))
        pairs = list(zip(rows, want)) + list(zip(after, want[-len(after):]))
    for g, w in pairs:
        if len(g) != len(w) or not all(near(a, b, loose) for a, b in zip(g, w)):
            ctx.fail("%s: the row %r is shown as %r" % (what, w, g))


def has(ctx, part, key, value, what):
    for l in part.split("\n"):
        if key in l and value in l:
            return
    # texts of several lines
    if "\n" in value and value in part:
        return
    ctx.fail("%s: %s %r is not shown in %r" % (what, key, value, part[:800]))


def attribute(ctx, part, key, value, what):
    shown = [l.split(":", 2)[2].strip() for l in part.split("\n")
             if re.match(r"\s*Attribute\s*:\s*%s\s*:" % re.escape(key), l)]
    # (a referenced list's attributes follow in the same piece of text)
    if ("%s" % value).strip() not in shown:
        ctx.fail("%s: attribute %s is %r, shown is %r" % (what, key, value, shown))


def values(ctx, part, key, want, what):
    shown = [l for l in part.split("\n") if re.match(r"\s*(?:Value|Element)\s*:\s*%s\s*:" % key, l)]
    if len(shown) != 1:
        ctx.fail("%s: %s %r is not shown once in %r" % (what, key, want, part[:800]))
    g = numbers(shown[0].rsplit(":", 1)[1])
    if len(g) != len(want) or not all(near(a, b) for a, b in zip(g, want)):
        ctx.fail("%s: %s is %r but shown as %r" % (what, key, want, shown[0]))


def attributes(s):
    out = [] if s["t"] == "ColorCorrection" else [("inBitDepth", s["in"]), ("outBitDepth", s["out"])]
    out += [(k, s[k]) for k in ("id", "name", "style", "path", "basePath", "alias") if s.get(k)]
    if s.get("interp"):
        out.append(("interpolation", s["interp"]))
    out += [(k, "True") for k in ("rawHalfs", "halfDomain", "defaultRange", "bypass") if s.get(k)]
    return out + [(k, v) for k, v in s.get("extra", [])]


def check_node(ctx, s, part, what):
    for k, v in attributes(s):
        attribute(ctx, part, k, v, what)
    for d in s.get("descs", []):
        has(ctx, part, "Description", d, what)
    for d in s.get("dyn", []):
        has(ctx, part, "Dynamic Parameter", d, what)
    t = s["t"]
    if t == "Range":
        for k, v in s.get("lim", {}).items():
            values(ctx, part, k + "Value", [float(v)], what)
    elif t in ("ASCCDL", "ColorCorrection"):
        for k in ("slope", "offset", "power"):
            if k in s:
                values(ctx, part, k, [float(x) for x in s[k]], what)
        if "sat" in s:
            values(ctx, part, "saturation", [float(s["sat"])], what)
    elif t == "Gamma":
        g, o = model._gamma_params(s)
        values(ctx, part, "gamma", [float(x) for x in g], what)
        values(ctx, part, "offset", [float(x) for x in o], what)
    elif t == "Log":
        p = model._log_params(s)
        for i, k in enumerate(("gamma", "ref white", "ref black", "highlight", "shadow")):
            values(ctx, part, k, [x[i] for x in p], what)
    elif t == "ExposureContrast":
        for k, v in zip(("exposure", "contrast", "pivot"), s.get("ecp") or [0, 1, 1]):
            values(ctx, part, k, [float(v)], what)
    elif t == "Reference":
        if "r.clf" not in part:
            ctx.fail("the path of a reference is not shown: %r" % part[:500])
    bl = blocks(part.split("\n"))
    arrays = [b for b in bl if b[0] == "Array"]
    maps = [b for b in bl if b[0] == "IndexMap"]
    if "vals" in s:
        vals = [float(x) for x in tables.values(s["vals"])]
        dims = ([len(vals) // s["ch"], s["ch"]] if t == "LUT1D" else
                list(s["dims"]) + ([3] if t == "LUT3D" else []))
        cols = dims[1] if t == "Matrix" else dims[-1]
        if len(arrays) != 1 or arrays[0][1] != dims:
            ctx.fail("%s: the table of %r is shown as %r" % (what, dims, [b[:2] for b in arrays]))
        loose = 0.9999999 if model.size(s["out"]) > 1 else 0.0
        check_rows(ctx, what, arrays[0][2], arrays[0][3],
                   [vals[i:i + cols] for i in range(0, len(vals), cols)], loose)
    elif arrays:
        ctx.fail("%s: shows a table" % what)
    want = s.get("imaps") or []
    if len(maps) != len(want):
        ctx.fail("%s: %d index maps shown, there are %d" % (what, len(maps), len(want)))
    for b, m in zip(maps, want):
        if b[1] != [len(m[0])]:
            ctx.fail("%s: an index map of %d entries is shown as %r" % (what, len(m[0]), b[1]))
        check_rows(ctx, what + " index map", b[2], b[3], [[float(x), float(y)] for x, y in zip(*m)])


def check_list(ctx, spec, part, what):
    e = xmlio.expected(spec)
    for k, v in e["attrs"].items():
        attribute(ctx, part, k, v, what)
    for t, v in e["elems"]:
        for key, text in (v if t == "Info" else [[t, v]]):
            has(ctx, part, key, text, what)


def run(case, ctx):
    spec, how = case["list"], case["how"]
    head = []
    if case["ref"]:
        head += [["new", "r", case["ref"]], ["write", "r", "r.clf"]]
    head.append(["new", "a", spec])
    px = [0.25, 0.5, 0.75, 0.0, 1.0, 0.125]
    if how != "library":
        head.append(["write", "a", "a.clf", {"gzip": case["gzip"]}])
    if how == "clfinfo":
        opt = ["-c", "a.clf"] if case["short"] else ["--clf", "a.clf"]
        text = ctx.ok(head + [["script", "clfinfo", opt]])[-1]
    else:
        if how == "read":
            head.append(["read", "a", "a.clf"])
        res = ctx.ok(head + [["tree", "a"], ["info", "a"], ["tree", "a"], ["process", "a", px, 3], ["info", "a"],
                             ["process", "a", px, 3]])
        k = len(head)
        text = res[k + 1]
        if res[k] != res[k + 2] or repr(res[k + 3]) != repr(res[k + 5]):
            ctx.fail("printing changed the list")
        if res[k + 4] != text:
            ctx.fail("printing again, after processing, shows something else")
    nodes = spec["nodes"]
    if how != "library":
        nodes = [model.through_file(n) for n in nodes]
    parts = re.split(r"(?m)^(?=ProcessNode type : )", text)
    check_list(ctx, spec, parts[0], "list")
    want = list(walk(nodes, case["ref"]))
    i = 0
    for n in want:
        if n == "list":
            # the referenced list's own part follows the reference, in the same piece of text
            check_list(ctx, case["ref"], parts[i], "referenced list")
            continue
        i += 1
        m = re.match(r"ProcessNode type : (\S+)", parts[i]) if i < len(parts) else None
        if not m or m.group(1).replace("_", "") != n["t"]:
            ctx.fail("node %d in order is a %s, shown is %r" % (i, n["t"], m and m.group(0)))
        check_node(ctx, n, parts[i], "node %d (%s)" % (i, n["t"]))
        ctx.label(n["t"])
    if len(parts) != i + 1:
        ctx.fail("%d nodes shown, there are %d" % (len(parts) - 1, i))
    ctx.label(how)
    return i > 1


def tests(tier):
    return [Test("print", case(), run, 2500, 60000)]
