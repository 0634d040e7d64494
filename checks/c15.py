"""C15: operations have no side effects on each other."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Test, Worker
from pbt.xmlio import bits

RULE = ("histories: a random program over up to three lists (building, sharing nodes, setting attributes, reading files "
        "written before, processing with different sequence types and verbose, plain, compressed and self-contained "
        "writing, printing). For every query of the history a fresh interpreter runs only the setters that came before "
        "it and concern its list (or one that shares nodes with it) and the query in its plainest form; results, files and text must be identical. arguments: nodes built from "
        "shared argument objects, which must keep their value. lut files: the same for the LUT format registry. threads: "
        "lists are processed by two to four threads at once, results must be those of processing one after another. "
        "Non-trivial when at least two queries were compared and they follow other queries.")
ASSUMPTIONS = ["the fresh interpreter and the one under test run the same code, so only dependence on history is found",
               "no file refers to itself, directly or through others"]

H = ["a", "b", "c"]
FILES = ["f1.clf", "f2.clf", "f3.clf"]
handle = st.sampled_from(H)
idx = st.integers(0, 5)


@st.composite
def ref(draw):
    return {"t": "Reference", "in": "16f", "out": "16f", "path": draw(st.sampled_from(["r.clf", "r.clf", "no.clf"]))}


@st.composite
def node_(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return draw(ref())
    if k == 1:
        g = draw(gen.group())
        if draw(st.integers(0, 2)) == 0:
            g["nodes"].append(draw(ref()))
        return g
    return draw(gen.leaf(meta=draw(st.booleans())))


VALS = [0.0, 1.0, 0.5, 0.25, 0.18, -0.25, 1.5, 100.0, 0.75]


@st.composite
def query(draw):
    h = draw(handle)
    k = draw(st.integers(0, 9))
    if k < 5:
        stride = draw(st.sampled_from([3, 3, 4, 5]))
        n = stride * draw(st.integers(1, 3))
        if draw(st.booleans()):
            vals = [float(draw(st.integers(0, 1023))) for _ in range(n)]
            kind = draw(st.sampled_from(["list", "tuple", "f32", "f64", "f16", "ints", "iarr"]))
        else:
            vals = [gen.f32(draw(st.sampled_from(VALS))) for _ in range(n)]
            kind = draw(st.sampled_from(["list", "tuple", "f32", "f64"]))
        if kind == "f16":
            vals = [float(int(v) % 512) for v in vals]
        return ["process", h, vals, stride, {"kind": kind, "verbose": draw(st.booleans())}]
    if k < 8:
        return ["write", h, draw(st.sampled_from(FILES)),
                {"gzip": draw(st.booleans()), "selfContained": draw(st.booleans())}]
    if k == 8:
        return ["info", h]
    return [draw(st.sampled_from(["nodes", "tree"])), h]


@st.composite
def setter(draw):
    h = draw(handle)
    k = draw(st.integers(0, 11))
    if k < 3:
        return ["addnode", h, draw(node_())]
    if k < 5:
        return ["share", h, draw(handle), draw(idx)]
    if k < 7:
        return ["read", h, draw(st.sampled_from(FILES)), draw(st.booleans()), draw(st.sampled_from(["ctor", "read"]))]
    if k == 7:
        return ["new", h, draw(gen.plist(max_nodes=2))]
    if k == 8:
        return ["nodesetattr", h, draw(idx), "bypass", draw(st.booleans())]
    if k == 9:
        return ["nodesetattr", h, draw(idx), "name", draw(st.sampled_from(["n1", "n2"]))]
    if k == 10:
        return ["setattr", h, draw(st.sampled_from(["name", "id", "x"])), draw(st.sampled_from(["v1", "v2"]))]
    return ["nodecall", h, draw(idx), draw(st.sampled_from(["setInBitDepth", "setOutBitDepth"])), draw(gen.depth)]


@st.composite
def history_case(draw):
    steps = [["new", "a", draw(gen.plist(min_nodes=1, max_nodes=2))],
             ["write", "a", "r.clf", {"gzip": draw(st.booleans()), "selfContained": False}]]
    steps += [["new", h, draw(gen.plist(max_nodes=3, meta=draw(st.booleans())))] for h in H]
    if draw(st.booleans()):
        for f, h in zip(FILES, H):
            steps.append(["write", h, f, {"gzip": draw(st.booleans()), "selfContained": draw(st.booleans())}])
        for _ in range(draw(st.integers(0, 3))):
            steps.append(["read", draw(handle), draw(st.sampled_from(FILES)), draw(st.booleans()),
                          draw(st.sampled_from(["ctor", "read"]))])
    n = draw(st.integers(3, 10))
    for _ in range(n):
        steps.append(draw(query() if draw(st.integers(0, 4)) < 3 else setter()))
    steps.append(draw(query()))
    return {"steps": steps}


QUERIES = ("process", "write", "info", "nodes", "tree", "steps")


def canon(s):
    if s[0] == "process":
        return ["process", s[1], s[2], s[3]]
    return s


def outcome(r):
    if "exc" in r:
        return ["exc", r["exc"]]
    v = r["ok"]
    if isinstance(v, list) and v and isinstance(v[0], float):
        return [bits(x) for x in v]
    return v


def concerning(base, h):
    """The steps that h's content can depend on: those of h and of the lists it shares nodes with, and all files."""
    def handles(s):
        if s[0] == "put":
            return set()
        if s[0] == "regread":
            return {s[1]}
        if s[0] == "share":
            return {s[1], s[2]}
        return {s[1]}
    mine, size_ = {h}, 0
    while len(mine) != size_:
        size_ = len(mine)
        for s in base:
            if s[0] == "share" and handles(s) & mine:
                mine |= handles(s)
    return [s for s in base if s[0] == "put" or handles(s) & mine]


def run_history(case, ctx):
    steps = case["steps"]
    script, where = [], []
    for s in steps:
        where.append(len(script))
        script.append(s)
        if s[0] == "write":
            script.append(["gunzip" if s[3]["gzip"] else "get", s[2]])
            script.append(["getb64", s[2]])
    res = ctx.run(script)
    for s, r in zip(script, res):
        if s[0] in ("process", "nodes", "tree", "info", "new") and "exc" in r:
            ctx.fail("%s failed: %s: %s (at %s)" % (str(s)[:200], r["exc"], r["msg"], r["where"]))
    base = []
    queries = 0
    fresh = Worker(ctx.w.sockpath)
    try:
        picked = 0
        for i, s in enumerate(steps):
            at = where[i]
            if s[0] in QUERIES:
                queries += 1
                # every query is compared up to the fifth, then every other one
                if queries <= 5 or queries % 2 == 0:
                    picked += 1
                    want = script[at:at + 3] if s[0] == "write" else [canon(s)]
                    fresh.restart()
                    own = concerning(base, s[1])
                    alone = fresh.run(own + want)[len(own):]
                    for k, (q, r) in enumerate(zip(want, alone)):
                        if q[0] == "getb64":
                            continue        # gzip files hold a time stamp; their content was compared
                        got = res[at + k]
                        if outcome(got) != outcome(r):
                            ctx.fail("after the operations before it, %s gives %s; in a program with only the setters "
                                     "before it, %s" % (str(q)[:300], str(outcome(got))[:800], str(outcome(r))[:800]))
                if s[0] == "write":
                    data = res[at + 2]
                    if "ok" in data and data["ok"] is not None and "exc" not in res[at]:
                        base.append(["put", s[2], data["ok"], "b64"])
            else:
                base.append(s)
    finally:
        fresh.close()
    return picked >= 2


# --------------------------------------------------------------------------

@st.composite
def args_case(draw):
    kinds = ["Matrix", "LUT1D", "LUT3D"]
    out = []
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from(kinds))
        if t == "Matrix":
            out.append(draw(gen.matrix_node(n=3)))
        elif t == "LUT1D":
            out.append(draw(gen.lut1d_node()))
        else:
            out.append(draw(gen.lut3d_node()))
    if draw(st.booleans()) and out:
        twin = dict(out[0])
        twin["out"] = draw(gen.depth)
        if twin["out"] != "16i" or twin.get("enc") not in ("integer16bit", "hex16bit"):
            out.append(twin)
    return {"specs": out, "kind": draw(st.sampled_from(["list", "tuple", "f32", "f64"]))}


def run_args(case, ctx):
    res = ctx.ok([["sharedargs", case["specs"], case["kind"]]])[0]
    if res["modified"]:
        ctx.fail("arguments were modified: %s" % "; ".join(res["modified"])[:500])
    n = len(case["specs"])
    for i in range(n):
        a, b = res["out"][i], res["out"][n + i]
        if outcome({"ok": a[0]}) != outcome({"ok": a[1]}):
            ctx.fail("processing gives %r, after writing and printing %r" % (a[0], a[1]))
        if a[2] != b[2]:
            ctx.fail("the same node built a second time is written differently: %r / %r" % (a[2][:800], b[2][:800]))
        if a[3] != b[3] or outcome({"ok": a[0]}) != outcome({"ok": b[0]}):
            ctx.fail("the same node built a second time prints or processes differently")
    ctx.label(case["kind"])
    return True


# --------------------------------------------------------------------------

LUTS = ["l1.spi1d", "l2.spi3d", "l3.csp", "l4.csp", "l5.clf", "l6.ctl"]


@st.composite
def lut_case(draw):
    steps = []
    for h in H[:2]:
        steps.append(["new", h, {"nodes": [draw(gen.leaf(kinds=["Matrix", "Range", "ASCCDL", "Gamma", "LUT1D"],
                                                         din="16f", dout="16f", cc=False))
                                           for _ in range(draw(st.integers(1, 2)))]}, "top"])
    for _ in range(draw(st.integers(3, 8))):
        k = draw(st.integers(0, 8))
        h = draw(st.sampled_from(H[:2]))
        if k < 4:
            kw = {"lutDataFormat": draw(st.sampled_from(["1D", "3D", "1D3D1D"])),
                  "lutResolution1d": draw(st.integers(2, 9)), "lutResolution3d": draw(st.integers(2, 4)),
                  "lutResolution1d3d1d": [draw(st.integers(2, 5)), 3, draw(st.integers(2, 5))]}
            if draw(st.booleans()):
                kw["shaperIn"] = ["log2", 0.01, 4.0]
            if draw(st.booleans()):
                kw["inputMin"], kw["inputMax"] = -0.5, 2.0
            for d in ("lutResolution1d", "lutResolution3d", "lutResolution1d3d1d"):
                if draw(st.integers(0, 2)) == 0:
                    del kw[d]
            if kw.get("lutDataFormat") == "3D":
                kw.setdefault("lutResolution3d", 2)
            kw.setdefault("lutResolution1d3d1d", [4, 2, 2])
            steps.append(["regwrite", h, draw(st.sampled_from(LUTS)), kw])
        elif k < 6:
            steps.append(["regread", draw(st.sampled_from(H)), draw(st.sampled_from(LUTS[:5])),
                          {"inverse": draw(st.booleans()), "inversesUseHalfDomain": False,
                           "inversesUseIndexMaps": draw(st.booleans()),
                           "interpolation": draw(st.sampled_from(["linear", "tetrahedral"]))}])
        elif k < 8:
            steps.append(["process", h, [0.1, 0.5, 0.9, 0.3, 1.5, -0.2], 3,
                          {"kind": draw(st.sampled_from(["list", "f32"])), "verbose": draw(st.booleans())}])
        else:
            steps.append(["info", h])
    return {"steps": steps}


def run_luts(case, ctx):
    script, where = [], []
    for s in case["steps"]:
        where.append(len(script))
        script.append(s)
        if s[0] == "regwrite":
            script.append(["getb64", s[2]])
    res = ctx.run(script)
    base, n = [], 0
    fresh = Worker(ctx.w.sockpath)
    try:
        for s, at in zip(case["steps"], where):
            if s[0] in ("regwrite", "process", "info"):
                n += 1
                want = script[at:at + 2] if s[0] == "regwrite" else [canon(s)]
                fresh.restart()
                own = concerning(base, s[1])
                alone = fresh.run(own + want)[len(own):]
                for k, (q, r) in enumerate(zip(want, alone)):
                    if outcome(res[at + k]) != outcome(r):
                        ctx.fail("after the operations before it, %s gives %s; on its own %s" % (
                            str(q)[:300], str(outcome(res[at + k]))[:800], str(outcome(r))[:800]))
                if s[0] == "regwrite" and res[at + 1].get("ok") is not None:
                    base.append(["put", s[2], res[at + 1]["ok"], "b64"])
            else:
                base.append(s)
    finally:
        fresh.close()
    return n >= 2


# --------------------------------------------------------------------------

@st.composite
def thread_case(draw):
    lists = [{"nodes": [draw(node_()) for _ in range(draw(st.integers(1, 3)))]} for _ in range(draw(st.integers(1, 2)))]
    jobs = []
    for _ in range(draw(st.integers(2, 4))):
        stride = draw(st.sampled_from([3, 3, 4]))
        n = stride * draw(st.sampled_from([1, 4, 30]))
        k, m = draw(st.integers(1, 97)), draw(st.sampled_from([1.0, 1.0, 255.0, 1023.0]))
        jobs.append([H[draw(st.integers(0, len(lists) - 1))], [gen.f32((i * k % 101) / 80.0 * m - 0.1) for i in range(n)],
                     stride])
    return {"lists": lists, "jobs": jobs, "rounds": draw(st.sampled_from([1, 5, 20])),
            "target": draw(gen.plist(min_nodes=1, max_nodes=2, bypass=True))}


def run_threads(case, ctx):
    head = [["new", "r", case["target"]], ["write", "r", "r.clf", {}]]
    head += [["new", h, s] for h, s in zip(H, case["lists"])]
    res = ctx.ok(head + [["process", h, v, stride] for h, v, stride in case["jobs"]] +
                 [["threads", case["jobs"], case["rounds"]]])
    alone, together = res[len(head):-1], res[-1]
    for (h, v, stride), a, rounds in zip(case["jobs"], alone, together):
        for r in rounds:
            if isinstance(r, str) or [bits(x) for x in r] != [bits(x) for x in a]:
                ctx.fail("processed in a thread %s gives %s for %s, otherwise %s" % (
                    h, str(r)[:600], str(v)[:300], str(a)[:600]))
    return any(len(v) > stride for _, v, stride in case["jobs"])


def tests(tier):
    return [Test("histories", history_case(), run_history, 450, 25000),
            Test("arguments", args_case(), run_args, 400, 20000),
            Test("threads", thread_case(), run_threads, 300, 12000, tries=20),
            Test("lut files", lut_case(), run_luts, 110, 8000)]
