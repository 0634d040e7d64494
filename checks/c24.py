"""C24: OCIO transforms convert to equivalent CLFs."""
import math

from hypothesis import strategies as st

from checks import c19, c20
from pbt import lutio, model, xmlio
from pbt.core import Test
from pbt.tables import f32

RULE = ("A case is a configuration (color spaces whose transforms are nested groups of matrices, logarithms and LUT "
        "files, for one or both directions, or absent), lists of source and destination spaces, a way to start the "
        "conversion (the library, the module's main or the script) and pixels. The list in the written CLF must give "
        "what applying the transforms one after the other gives: matrices and logarithms evaluated in float64, LUT files "
        "by the library's own reading of that file (the subject of C19 and C20), with the tolerance carried through "
        "from transform to transform. Nodes must follow the order of the spaces and name theirs. Non-trivial when at "
        "least two transforms contribute.")
ASSUMPTIONS = ["OpenColorIO is replaced by a stand-in that returns what the configuration holds",
               "matrices are used in the forward direction (the library reports that it does not support the other)",
               "an alpha offset of a matrix that leaves alpha alone is not represented (documented in the code)",
               "interpolations are linear and tetrahedral; spi3d and csp files are used forward (no inverse exists, and the conversion must fail)"]

NAMES = ["ACES", "lin_srgb", "Log C (v3)", "out <P3> & more", "vd16", "Grün/gelb", "raw data"]


def cell(draw):
    return draw(st.one_of(st.integers(-150, 200).map(lambda i: i / 100.0), st.sampled_from([0.0, 1.0, 0.0, 0.5])))


@st.composite
def matrix(draw):
    k = draw(st.integers(0, 9))
    off = [0.0] * 4
    if k == 0:
        return {"k": "matrix", "matrix": [cell(draw) for _ in range(9)], "offset": off, "dir": "forward"}
    if k == 1:
        return {"k": "matrix", "matrix": [cell(draw) for _ in range(12)], "offset": off, "dir": "forward"}
    m = [cell(draw) if i < 3 and j < 3 else float(i == j) for i in range(4) for j in range(4)]
    if k >= 6:
        # whichever of the cells that make it a full 4x4
        odd = draw(st.lists(st.sampled_from([3, 7, 11, 12, 13, 14, 15]), min_size=1, max_size=7, unique=True))
        for i in odd:
            m[i] = draw(st.sampled_from([0.5, -0.25, 0.125, 2.0, 0.01]))
    which = draw(st.sampled_from([[], [0, 1, 2], [0], [1], [2], [0, 2], [3], [0, 1, 2, 3]]))
    for i in which:
        if i < 3 or k >= 6:
            off[i] = draw(st.sampled_from([0.5, -0.25, 0.1, 1.0, -0.003]))
    if draw(st.integers(0, 4)) == 0:
        # offsets that cancel each other
        off = draw(st.permutations([0.5, -0.5, 0.0])) + [0.0]
        off = draw(st.sampled_from([off, [0.25, 0.25, -0.5, 0.0], [-0.5, 0.25, 0.25, 0.0]]))
    return {"k": "matrix", "matrix": m, "offset": off, "dir": "forward"}


@st.composite
def turn(draw):
    """A matrix that many can follow each other of."""
    p = draw(st.permutations([0, 1, 2]))
    m = [float(i == 3 and j == 3 or i < 3 and j == p[i]) for i in range(4) for j in range(4)]
    return {"k": "matrix", "matrix": m, "offset": [draw(st.sampled_from([0.0, 0.125, -0.0625])) for _ in range(3)] + [0.0],
            "dir": "forward"}


@st.composite
def log(draw):
    return {"k": "log", "base": draw(st.sampled_from([2, 10, 2.0, 10.0])),
            "dir": draw(st.sampled_from(["forward", "inverse"]))}


@st.composite
def lutfile(draw, half):
    kind = draw(st.sampled_from(["spi1d", "spi1d", "spi3d", "csp1", "csp3"]))
    d = {"k": "file", "kind": kind, "dir": "forward", "interp": "linear"}
    if kind == "spi1d":
        n, ch = draw(st.integers(2, 6)) if draw(st.integers(0, 9)) else 40, draw(st.sampled_from([1, 3]))
        cols = [draw(c20.column(n, False)) for _ in range(ch)]
        d["text"] = lutio.write_spi1d(draw(c19.in_range()), [list(r) for r in zip(*cols)], {}, 1)
        d["dir"] = "inverse" if half else draw(st.sampled_from(["forward", "inverse"]))
    elif kind == "csp1":
        n = draw(st.integers(2, 6))
        d["text"] = lutio.write_csp("1D", [[draw(c19.in_range()), [0.0, 1.0]]] * 3, [n], c19.rows_of(draw, n, 3), {}, 1)
    else:
        dims = [draw(st.integers(2, 3)) for _ in range(3)]
        rows = c19.rows_of(draw, dims[0] * dims[1] * dims[2], 3)
        d["text"] = (lutio.write_spi3d(dims, rows, {}, 1) if kind == "spi3d" else
                     lutio.write_csp("3D", [[draw(c19.in_range()), [0.0, 1.0]]] * 3, dims, rows, {}, 1))
        d["interp"] = draw(st.sampled_from(["linear", "tetrahedral"]))
    return d


@st.composite
def transform(draw, deep=2, half=False):
    k = draw(st.integers(0, 9))
    if k < 3:
        return draw(matrix())
    if k < 5:
        return draw(log())
    if k < 7 or not deep:
        return draw(lutfile(False))
    return {"k": "group", "children": draw(st.lists(transform(deep - 1), min_size=draw(st.sampled_from([0, 1, 1])),
                                                    max_size=3))}


def reducible(t):
    m = t["matrix"]
    return len(m) != 16 or (m[3], m[7], m[11], m[12], m[13], m[14], m[15]) == (0, 0, 0, 0, 0, 0, 1)


def leaves(t):
    if t is None:
        return []
    return [x for c in t["children"] for x in leaves(c)] if t["k"] == "group" else [t]


@st.composite
def case(draw, half=False):
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, 4))]
    spaces = {}
    for n in names:
        s = {}
        for d in ("to_reference", "from_reference"):
            k = draw(st.integers(0, 7))
            s[d] = None if k == 0 else draw(transform())
        spaces[n] = s
    if half:
        spaces[names[0]]["to_reference"] = {"k": "group", "children": [draw(lutfile(True).filter(
            lambda f: f["kind"] == "spi1d"))]}
    elif draw(st.integers(0, 19)) == 0:
        # many transforms
        spaces[names[0]][draw(st.sampled_from(["to_reference", "from_reference"]))] = {"k": "group", "children": [
            draw(turn()) for _ in range(draw(st.sampled_from([9, 17, 28, 40])))]}
    pick = st.lists(st.sampled_from(names), max_size=2)
    src, dst = draw(pick), draw(pick)
    if half:
        src = [names[0]]
    elif not src and not dst:
        src = [names[0]]
    im = not half and draw(st.booleans())
    # half-domain tables are slow, they have a test of their own
    hd = half or (draw(st.booleans()) and (im or not any(
        t["k"] == "file" and t["dir"] == "inverse" for s in spaces.values() for d in s.values() for t in leaves(d))))
    full = False
    for s in spaces.values():
        for d in s.values():
            full = full or any(t["k"] == "matrix" and not reducible(t) for t in leaves(d))
    stride = 4 if full else draw(st.sampled_from([3, 3, 4]))
    n = draw(st.integers(1, 4))
    vals = [f32(draw(st.one_of(st.integers(0, 1000).map(lambda i: i / 1000.0),
                               st.sampled_from([0.0, 1.0, 0.18, 0.5, 2.0, -0.25, 5.0])))) for _ in range(n * stride)]
    return {"spaces": spaces, "src": src, "dst": dst, "vals": vals, "stride": stride,
            "search": draw(st.sampled_from(["luts", ".", "a/b"])), "dir": draw(st.sampled_from(["", "cfg", "x/y"])),
            "im": im, "hd": hd,
            "how": draw(st.sampled_from(["lib", "lib", "cli", "script"])), "equals": draw(st.booleans()),
            "short": draw(st.booleans()), "out": draw(st.sampled_from(["out.clf", "deep.xml"])),
            "order": draw(st.integers(0, 23))}


def used(case):
    out = []
    for n in case["src"]:
        out += [(n, t) for t in leaves(case["spaces"][n]["to_reference"])]
    for n in case["dst"]:
        out += [(n, t) for t in leaves(case["spaces"][n]["from_reference"])]
    return out


def matrix_spec(t):
    m, off = t["matrix"], t["offset"]
    if len(m) == 9:
        return {"t": "Matrix", "in": "16f", "out": "16f", "dims": [3, 3, 3], "vals": m}
    if len(m) == 12:
        return {"t": "Matrix", "in": "16f", "out": "16f", "dims": [3, 4, 3], "vals": m}
    if reducible(t):
        return {"t": "Matrix", "in": "16f", "out": "16f", "dims": [3, 4, 3],
                "vals": [v for r in range(3) for v in m[4 * r:4 * r + 3] + [off[r]]]}
    return {"t": "Matrix", "in": "16f", "out": "16f", "dims": [4, 5, 3],
            "vals": [v for r in range(4) for v in m[4 * r:4 * r + 4] + [off[r]]]}


def log_spec(t):
    return {"t": "Log", "in": "16f", "out": "16f", "params": [],
            "style": {(2, True): "log2", (2, False): "antiLog2", (10, True): "log10", (10, False): "antiLog10"}[
                (int(t["base"]), t["dir"] == "forward")]}


def settled(px):
    return all(v == v and abs(v) < 1e6 for v in px)


def through_model(spec, px, tol):
    try:
        if spec["t"] == "Log" and any(abs(v) > 20 for v in px[:3]) and spec["style"].startswith("anti"):
            return None, None
        base, t = model.expect(spec, px)
        for k in range(len(px)):
            for s in (1, -1):
                q = list(px)
                q[k] += s * tol[k]
                o = model.node(spec, q)
                t = [a + abs(x - b) for a, x, b in zip(t, o, base)]
    except (OverflowError, ValueError):
        return None, None
    if any(v != v or v == math.inf for v in t):
        return None, None
    return base, t


def oracle(case, ctx, kw):
    """[(values, tolerances)] per pixel, None where it is not settled."""
    st_ = case["stride"]
    n = len(case["vals"]) // st_
    state = [(list(case["vals"][p * st_:(p + 1) * st_]), [0.0] * st_) for p in range(n)]
    for _, t in used(case):
        if t["k"] != "file":
            spec = matrix_spec(t) if t["k"] == "matrix" else log_spec(t)
            for p in range(n):
                if state[p] is None:
                    continue
                px, tol = state[p]
                o, t2 = through_model(spec, px, tol)
                state[p] = None if o is None or not settled(o) else (o, t2)
            continue
        # all pixels and their perturbations in one buffer
        buf, where = [], []
        for p in range(n):
            if state[p] is None:
                continue
            px, tol = state[p]
            pert = [[0] * st_] + [[s if k in ax else 0 for k in range(st_)] for ax in
                                  ((0,), (1,), (2,), (0, 1, 2)) for s in (1, -1)]
            for d in pert:
                buf += [f32(v + s * (w + 2.0 ** -23 * abs(v))) for v, w, s in zip(px, tol, d)]
            where.append(p)
        if not buf:
            return state
        name = "l." + t["kind"].rstrip("13") if t["kind"].startswith("csp") else "l." + t["kind"]
        res = ctx.ok([["put", name, t["text"]],
                      ["regread", "a", name, dict(kw, inverse=t["dir"] != "forward", interpolation=t["interp"])],
                      ["write", "a", "l.clf"], ["read", "b", "l.clf"], ["process", "b", buf, st_]])[4]
        for j, p in enumerate(where):
            rows = [res[(9 * j + i) * st_:(9 * j + i + 1) * st_] for i in range(9)]
            o = rows[0]
            if not settled(o):
                state[p] = None
                continue
            tol = [2.0 ** -21 * abs(v) + 1e-7 + sum(abs(r[k] - v) for r in rows[1:]) for k, v in enumerate(o)]
            for k in range(3, st_):
                tol[k] += state[p][1][k]
            state[p] = (o, tol)
    return state


def placed(case, src):
    return "/".join(x for x in (case["dir"], "" if case["search"] == "." else case["search"], src) if x)


def run(case, ctx):
    files, n, cfg = [], [0], {}

    def conv(t):
        if t is None:
            return None
        if t["k"] == "group":
            return {"k": "group", "children": [conv(c) for c in t["children"]]}
        if t["k"] == "file":
            n[0] += 1
            ext = t["kind"][:3] if t["kind"].startswith("csp") else t["kind"]
            src = "%s%d.%s" % ("sub/f" if n[0] % 3 == 0 else "f", n[0], ext)
            files.append(["put", placed(case, src), t["text"]])
            return {"k": "file", "src": src, "interp": t["interp"], "dir": t["dir"]}
        return t
    cfg = {"search": case["search"], "spaces": {k: {d: conv(t) for d, t in s.items()}
                                                for k, s in case["spaces"].items()}}
    path = "/".join(x for x in (case["dir"], "config.ocio") if x)
    kw = {"inversesUseIndexMaps": case["im"], "inversesUseHalfDomain": case["hd"]}
    if case["how"] == "lib":
        go = ["ocio", path, case["src"], case["dst"], case["out"], case["im"], case["hd"]]
    else:
        opts = [[["-c", "--config"], path], [["-o", "--output"], case["out"]]]
        opts += [[["-s", "--source"], s] for s in case["src"]]
        opts += [[["-d", "--destination"], s] for s in case["dst"]]
        opts = [[o[0][0 if case["short"] else 1], o[1]] for o in opts]
        opts = [[o[0] + "=" + o[1]] if o[0].startswith("--") and case["equals"] else o for o in opts]
        flags = [["--" + k] for k in sorted(kw) if kw[k]]
        r = case["order"] % 3
        opts = opts[2:] + flags + opts[:2] if r == 0 else flags + opts if r == 1 else opts + flags
        argv = [x for o in opts for x in o]
        go = ["cli", "ocio", argv] if case["how"] == "cli" else ["script", "convertOCIOToCLF", argv]
    todo = used(case)
    res = ctx.ok(files + [["ocioconfig", path, cfg], go, ["get", case["out"]]])
    doc = res[-1]
    if not todo:
        if doc:
            ctx.fail("no transform contributes, but a file was written")
        return False
    if not doc:
        ctx.fail("nothing was written")
    res = ctx.ok([["put", "x.clf", doc["text"]], ["read", "a", "x.clf"],
                  ["process", "a", case["vals"], case["stride"]]])
    got = res[2]
    # names
    d = xmlio.parse(doc["text"].encode("utf-8"))
    about = [x for t, x in d["elems"] if t == "Description"]
    names = []
    for nd in d["nodes"]:
        at = [s for s in NAMES if s in nd["attrs"].get("name", "")]
        de = [s for s in NAMES if any(s in x for x in nd["descs"])]
        if len(at) != 1 or at != de:
            ctx.fail("node %r is described by %r" % (nd["attrs"], nd["descs"]))
        names.append((at[0], nd["attrs"]["name"]))
    order, want = [], []
    for a, full in names:
        if not order or order[-1] != a:
            order.append(a)
    for a, _ in todo:
        if not want or want[-1] != a:
            want.append(a)
    if order != want:
        ctx.fail("the nodes belong to %r, expected %r" % (order, want))
    for s in case["src"] + case["dst"]:
        if not any(s in x for x in about):
            ctx.fail("the list's descriptions %r don't mention %r" % (about, s))
    for p, stt in enumerate(oracle(case, ctx, kw)):
        if stt is None:
            ctx.label("pixel out of bounds on the way")
            continue
        o, tol = stt
        for k in range(case["stride"]):
            g = got[p * case["stride"] + k]
            # twice the tolerance for what the file's text rounds
            if not abs(g - o[k]) <= 3 * tol[k] + 2e-6 * abs(o[k]) + 1e-6:
                ctx.fail("pixel %r component %d gave %r, expected %r (+- %.3g) from %r" % (
                    case["vals"][p * case["stride"]:(p + 1) * case["stride"]], k, g, o[k], tol[k], [
                        dict((a, b) for a, b in t.items() if a != "text") for _, t in todo]))
    for _, t in todo:
        ctx.label("%s %s" % (t["k"], t["dir"]))
    ctx.label(case["how"])
    return len(todo) > 1


@st.composite
def refused(draw):
    d = draw(lutfile(False).filter(lambda d: d["kind"] != "spi1d"))
    return {"file": dict(d, dir="inverse"), "before": draw(st.lists(st.one_of(matrix(), log()), max_size=2)),
            "group": draw(st.booleans()), "side": draw(st.sampled_from(["src", "dst"])), "im": draw(st.booleans()),
            "hd": draw(st.booleans()), "cli": draw(st.booleans())}


def run_refused(c, ctx):
    """A transform that there is nothing for is not replaced by another one."""
    name = "f." + (c["file"]["kind"][:3] if c["file"]["kind"].startswith("csp") else c["file"]["kind"])
    t = {"k": "file", "src": name, "interp": c["file"]["interp"], "dir": "inverse"}
    if c["group"] or c["before"]:
        t = {"k": "group", "children": c["before"] + [t]}
    cfg = {"search": ".", "spaces": {"in": {"to_reference": t if c["side"] == "src" else None, "from_reference": None},
                                     "out": {"to_reference": None, "from_reference": t if c["side"] == "dst" else None}}}
    go = ["ocio", "config.ocio", ["in"], ["out"], "o.clf", c["im"], c["hd"]]
    if c["cli"]:
        go = ["cli", "ocio", ["-c", "config.ocio", "-s", "in", "-d", "out", "-o", "o.clf"]]
    r = ctx.run([["put", name, c["file"]["text"]], ["ocioconfig", "config.ocio", cfg], go, ["ls"]])
    if "o.clf" in r[3]["ok"]:
        ctx.fail("the inverse of %s was asked for and a CLF was written" % name)
    if not c["cli"] and "exc" not in r[2]:
        ctx.fail("the inverse of %s was asked for: %r" % (name, r[2]))
    ctx.label("refused " + c["file"]["kind"])
    return True


def tests(tier):
    return [Test("no inverse", refused(), run_refused, 60, 2000),
            Test("configuration", case(), run, 1500, 40000),
            Test("half-domain inverse", case(True), run, 7, 300)]
