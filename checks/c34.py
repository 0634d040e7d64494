"""C34: nodes and elements defined by a user take part like the built-in ones."""
from hypothesis import strategies as st

from pbt import gen, model
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("A case is up to four classes of a user, derived from ProcessNode (with parameters in a child element, with or "
        "without a process of their own) or from Comment, whose tags may have dashes and underscores, one of them maybe "
        "defined twice; and a list in which their nodes and elements stand between built-in ones, in groups, bypassed, "
        "and behind a reference. Every step of processing is compared with the model before and after a file (strictly "
        "or not), and the user's objects must come back of the class defined last, with their values, initialised once "
        "after their children. A program without the classes must refuse the file strictly, and otherwise read it like "
        "a list without them. Non-trivial when a user's node changes a pixel.")
ASSUMPTIONS = ["the element's tag is the name of the class, but for dashes and underscores",
               "comparison tolerance of a few single precision rounding steps per node"]

NAMES = ["Gain", "VendorNode", "x1", "LUT1DX", "GainGain", "Tint"]


def dashed(draw, name):
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        i = draw(st.integers(1, len(name)))
        name = name[:i] + draw(st.sampled_from("-_")) + name[i:]
    return name


@st.composite
def klass(draw, name, kind):
    return {"name": name, "tag": dashed(draw, name), "kind": kind, "mark": draw(st.integers(1, 9)),
            "process": draw(st.integers(0, 4)) > 0, "init": draw(st.integers(0, 3)) > 0}


@st.composite
def nodes_(draw, cls, deep, lo, hi):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.integers(0, 9))
        if k < 4 and cls:
            c = draw(st.sampled_from(cls))
            n = {"t": "User", "cls": c["name"], "process": c["process"], "in": draw(gen.depth), "out": draw(gen.depth),
                 "name": draw(st.sampled_from(["", "n1", "a b"])), "scale": draw(st.integers(-8, 12)) / 4.0,
                 "bias": draw(st.integers(-8, 8)) / 8.0}
            if draw(st.integers(0, 5)) == 0:
                n["descs"] = [draw(gen.body_text)]
            if draw(st.integers(0, 5)) == 0:
                n["dyn"] = ["EXPOSURE"]
        elif k < 6 and deep:
            n = {"t": "Group", "in": draw(gen.depth), "out": draw(gen.depth),
                 "nodes": draw(nodes_(cls, deep - 1, 0, 3))}
        else:
            n = draw(gen.leaf())
        out.append(n)
    for i, n in enumerate(out):
        # several bypassed nodes in a row adapt to one another
        if draw(st.integers(0, 4)) == 0 and not (i and model.is_on(out[i - 1].get("bypass"))):
            n["bypass"] = draw(st.sampled_from([True, "true", False]))
    return out


@st.composite
def case(draw):
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
    classes = [draw(klass(n, "node")) for n in names]
    notes = [draw(klass(n, "note")) for n in ["Note", "VendorInfo"][:draw(st.integers(0, 2))]]
    first = [draw(klass(c["name"], c["kind"])) for c in classes + notes if draw(st.integers(0, 3)) == 0]
    nodes = draw(nodes_(classes, 2, 1, 4))
    elems = []
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from([c["name"] for c in notes] + ["Description"]))
        elems.append([k, draw(gen.body_text)])
    if notes:
        for n in nodes:
            if n["t"] == "Group" and draw(st.booleans()):
                n["notes"] = [[notes[0]["name"], draw(gen.body_text)]]
    # pixels of at least three components
    vals, stride = draw(gen.pixels(nodes[0]["in"], 3, 5, 3, -1.0, 2.0, long=False))
    return {"first": first, "classes": classes + notes, "nodes": nodes, "elems": elems, "vals": vals,
            "stride": stride or len(vals), "strict": draw(st.booleans()), "gzip": draw(st.integers(0, 3)) == 0,
            "how": draw(st.sampled_from(["ctor", "readFile"])),
            "between": draw(st.booleans()) and bool(first)}


def same(a, b):
    return len(a) == len(b) and all(x == y or bits(x) == bits(y) for x, y in zip(a, b))


def number(text):
    try:
        return [float(w) for w in text.split()]
    except ValueError:
        return text


def settled(tree):
    tag, attrs, text, kids = tree
    return [tag, [[k, number(v)] for k, v in attrs], number(text or ""), [settled(k) for k in kids]]


def walk(nodes):
    for n in nodes:
        yield n
        for k in walk(n.get("nodes", [])):
            yield k


def without(nodes):
    return [dict(n, nodes=without(n["nodes"]), notes=[]) if n["t"] == "Group" else n for n in nodes if n["t"] != "User"]


def users(case, read, nodes=None):
    mark = {c["name"]: c for c in case["classes"]}
    old = {c["name"]: c for c in case["first"]} if case["between"] and not read else mark
    out = []
    for k, text in case["elems"] if nodes is None else []:
        if k in mark:
            out.append([k, dict(mark, **old)[k]["mark"], text])
    for n in case["nodes"] if nodes is None else nodes:
        if n["t"] == "User":
            c = mark[n["cls"]]
            if not read:
                c = dict(mark, **old)[n["cls"]]
            out.append([n["cls"], c["mark"], c["tag"], n["in"], n["out"], n["name"], n["scale"], n["bias"],
                        (100 + c["init"]) if read else 0])
        for k, text in n.get("notes", []):
            out.append([k, dict(mark, **old)[k]["mark"] if not read else mark[k]["mark"], text])
        out += users(case, read, n.get("nodes", [])) if n["t"] == "Group" else []
    return out


def run(case, ctx):
    nodes, vals, stride = case["nodes"], case["vals"], case["stride"]
    flat = model.flatten(nodes)
    spec = {"nodes": nodes, "elems": case["elems"]}
    define = [["userclass", c] for c in case["first"]]
    if case["between"]:
        # the list is built with the first definitions
        define += [["userclass", c] for c in case["classes"] if c["name"] not in [f["name"] for f in case["first"]]]
        later = [["userclass", c] for c in case["classes"]]
    else:
        define += [["userclass", c] for c in case["classes"]]
        later = []
    script = define + [["new", "a", spec], ["users", "a"], ["process", "a", vals, stride], ["tree", "a"],
                       ["write", "a", "a.clf", {"gzip": case["gzip"]}]] + later
    at = len(script)
    script += [["read", "b", "a.clf", case["strict"], case["how"]], ["users", "b"], ["process", "b", vals, stride],
               ["tree", "b"], ["info", "b"], ["process", "b", vals, stride, {"verbose": True}],
               ["new", "r", {"nodes": [{"t": "Reference", "in": "16f", "out": "16f", "path": "a.clf"}]}],
               ["process", "r", vals, stride], ["write", "r", "s.clf", {"selfContained": True}],
               ["read", "s", "s.clf", True], ["process", "s", vals, stride], ["users", "s"],
               ["new", "f", {"nodes": flat}], ["write", "f", "f.clf"], ["read", "g", "f.clf"], ["steps", "g", vals, stride]]
    res = ctx.ok(script)
    got = res[len(define) + 1]
    if got != users(case, False):
        ctx.fail("the list holds %r, expected %r" % (got, users(case, False)))
    b, want = res[at + 1], users(case, True)
    if b != want:
        ctx.fail("read from the file: %r, expected %r" % (b, want))
    steps = res[at + 15]
    stored = [model.through_file(n) for n in flat]
    model.check_steps(ctx, stored, vals, stride, steps, "flattened")
    last = steps[-1] if steps else [model.f32(v) for v in vals]
    if not same(res[at + 2], last):
        ctx.fail("read from the file, the list gives %r, its nodes in place %r" % (res[at + 2], last))
    if not same(res[at + 5], last):
        ctx.fail("verbose processing gives %r instead of %r" % (res[at + 5], last))
    if not any(n["t"] in ("LUT1D", "LUT3D", "Matrix") for n in walk(nodes)) and not case["between"]:
        if not same(res[len(define) + 2], last):
            ctx.fail("the list gives %r, the file's list %r" % (res[len(define) + 2], last))
        if settled(res[len(define) + 3]) != settled(res[at + 3]):
            ctx.fail("written again, the document differs: %r and %r" % (res[len(define) + 3], res[at + 3]))
    if not same(res[at + 7], last) or not same(res[at + 10], last):
        ctx.fail("through a reference %r, self-contained %r, its nodes in place %r" % (res[at + 7], res[at + 10], last))
    if [u[:8] for u in res[at + 11]] != [u[:8] for u in users(dict(case, elems=[]), True)]:
        ctx.fail("self-contained: %r, expected %r" % (res[at + 11], want))
    info = res[at + 4]
    for n in walk(nodes):
        if n["t"] == "User" and "user's own lines: %r %r" % (float(n["scale"]), float(n["bias"])) not in info:
            ctx.fail("not printed: %r in %r" % (n, info))
    # a program that doesn't have the classes
    names = [c["name"] for c in case["classes"]]
    plain = {"nodes": without(nodes), "elems": [e for e in case["elems"] if e[0] not in names]}
    res = ctx.run(define + [["new", "a", spec], ["write", "a", "a.clf"], ["forget", names], ["read", "c", "a.clf"],
                            ["process", "c", vals, stride], ["read", "d", "a.clf", True],
                            ["new", "p", plain], ["write", "p", "p.clf"], ["read", "q", "p.clf"],
                            ["process", "q", vals, stride], ["nodes", "c"], ["nodes", "q"]])[len(define):]
    for i in (0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11):
        if "exc" in res[i]:
            ctx.fail("without the classes: %r" % (res[i],))
    strange = any(n["t"] == "User" or n.get("notes") for n in walk(nodes)) or any(e[0] in names for e in case["elems"])
    if strange != (res[5].get("exc") == "UnknownProcessNodeError"):
        ctx.fail("without the classes, reading strictly: %r" % (res[5],))
    if not same(res[4]["ok"], res[9]["ok"]) or res[10] != res[11]:
        ctx.fail("without the classes the list gives %r (%r), without their nodes %r (%r)" % (
            res[4]["ok"], res[10], res[9]["ok"], res[11]))
    ctx.label("redefined" if case["between"] else "defined")
    return any(n["t"] == "User" and n["process"] for n in flat) and not same(last, vals)


def tests(tier):
    return [Test("user classes", case(), run, 1500, 40000)]
