"""C32: failures are reported and leave lists and refused files as they were."""
import base64

from hypothesis import strategies as st

from pbt import gen, lutio
from pbt.core import Test

RULE = ("A case is a list that is written, processed and printed, then up to four operations that cannot succeed (writing "
        "to a missing directory, over a directory, on a disk that is full after any number of bytes, or with content XML "
        "cannot hold; reading what is missing, empty, no XML, or refused; sampling a list that cannot be processed; the "
        "same from the LUT format registry and the command line; processing values that are no numbers). Each must "
        "raise an error; a file that content was refused for keeps its bytes; a file left by a full disk must be refused "
        "when it is read, or hold everything. Afterwards the list must process, print and write as before. Every case "
        "is non-trivial.")
ASSUMPTIONS = ["a full disk is simulated by a limit on the size of files; the bytes before the limit are stored",
               "a LUT file that is cut inside its very last number cannot be told from one with another number"]

BAD = ["\x00", "\x01", "a\x08b", "\x0b", "\x1f", "\ufffe", "x\uffffy"]
OPTS = st.fixed_dictionaries({"gzip": st.booleans(), "selfContained": st.booleans()})
SIMPLE = dict(din="16f", dout="16f", cc=False)


@st.composite
def bad_list(draw):
    """A list with text or an attribute that cannot be written, and where it is."""
    nodes = [draw(gen.leaf(cc=False)) for _ in range(draw(st.integers(1, 3)))]
    where = draw(st.sampled_from(["id", "name", "extra", "key", "descs", "list", "listkey", "elem", "info", "dyn"]))
    t = draw(st.sampled_from(BAD))
    spec = {"nodes": nodes}
    n = nodes[draw(st.integers(0, len(nodes) - 1))]
    if where in ("id", "name"):
        n[where] = t
    elif where == "extra":
        n["extra"] = [["custom", t]]
    elif where == "key":
        n["extra"] = [[draw(st.sampled_from(["a b", "<", "a\"", "1x", ""])), "v"]]
    elif where == "descs":
        n["descs"] = ["fine", t]
    elif where == "dyn":
        n["dyn"] = [t]
    elif where == "list":
        spec["attrs"] = [["name", t]]
    elif where == "listkey":
        spec["attrs"] = [[draw(st.sampled_from(["a b", "<", "1x"])), "v"]]
    elif where == "elem":
        spec["elems"] = [["Description", t]]
    else:
        spec["elems"] = [["Info", [["AppRelease", t]]]]
    if draw(st.booleans()):
        spec["nodes"] = [{"t": "Group", "in": "16f", "out": "16f", "nodes": nodes}]
    return spec, where


@st.composite
def broken(draw):
    """A list that cannot be processed: a matrix with missing values."""
    m = {"t": "Matrix", "in": "16f", "out": "16f", "dims": [3, 3, 3], "vals": [1.0] * draw(st.integers(3, 8))}
    nodes = [draw(gen.leaf(kinds=["Range", "ASCCDL", "Gamma"], **SIMPLE)) for _ in range(draw(st.integers(0, 2)))]
    nodes.insert(draw(st.integers(0, len(nodes))), m)
    return {"nodes": nodes}


LUTK = [("x.spi1d", "1D"), ("x.spi3d", "3D"), ("x.csp", "1D"), ("x.csp", "3D"), ("x.csp", "1D_3D_1D"), ("x.ctl", "1D"),
        ("x.ctl", "3D"), ("x.clf", "1D_3D_1D")]


def kwargs(kind):
    return {"lutDataFormat": kind, "lutResolution1d": 5, "lutResolution3d": 3, "lutResolution1d3d1d": [4, 3, 4],
            "shaperIn": ["linear", 0.0, 1.0], "shaperOut": ["linear", 0.0, 1.0]}


@st.composite
def failure(draw, clf):
    how = draw(st.sampled_from(["nodir", "isdir", "full", "full", "text", "text", "text", "read", "readinto", "strict",
                                "values", "feature"]
                               if clf else ["lutfull", "lutfull", "lutfull", "lutdir", "lutbroken", "lutbroken", "cli",
                                            "cli", "read"]))
    f = {"how": how, "opts": draw(OPTS), "ext": draw(st.sampled_from(["clf", "xml", "clfz"]))}
    if how in ("full", "lutfull"):
        f["at"] = draw(st.one_of(st.floats(0, 1, exclude_max=True), st.integers(0, 30), st.integers(-30, -1)))
        f["there"] = draw(st.booleans())
    if how == "text":
        f["list"], f["where"] = draw(bad_list())
        f["by"] = draw(st.sampled_from(["write", "write", "again"]))
    if how in ("read", "readinto"):
        f["what"] = draw(st.sampled_from(["missing", "dir", "empty", "text", "cut", "lt", "nul", "gzempty"]))
        f["strict"] = draw(st.booleans())
    if how == "strict":
        f["el"] = draw(st.sampled_from(["Foo", "Matrix2", "LUT4D"]))
    if how[:3] == "lut" or how == "cli":
        f["lut"], f["kind"] = draw(st.sampled_from(LUTK))
        f["bad"] = draw(broken())
    if how == "cli":
        f["what"] = draw(st.sampled_from(["missing", "nodir", "broken", "cut"]))
    return f


@st.composite
def case(draw, clf):
    return {"list": draw(gen.plist(meta=draw(st.booleans()), min_nodes=1, max_nodes=3 if clf else 1)),
            "simple": [draw(gen.leaf(kinds=["Matrix", "Range", "ASCCDL", "Gamma"], **SIMPLE))],
            "fails": [draw(failure(clf)) for _ in range(draw(st.integers(1, 4)))], "opts": draw(OPTS),
            "vals": [gen.f32(v) for v in (0.25, 0.5, 0.75, 0.0, 1.0, -0.5)]}


READS = {"empty": "", "text": "no xml at all", "cut": "<ProcessList id=\"x\"><Range>", "lt": "<", "nul": "\x00\x01"}


def must_fail(ctx, what, r, names=None):
    if "exc" not in r:
        ctx.fail("%s succeeds: %r" % (what, r["ok"]))
    if r["exc"] in ("OutOfTime", "InterpreterDied", "AttributeError", "NameError", "UnboundLocalError"):
        ctx.fail("%s: %s: %s (at %s)" % (what, r["exc"], r["msg"], r["where"]))
    if names and r["exc"] not in names:
        ctx.fail("%s raises %s (%s)" % (what, r["exc"], r["msg"]))


def place(at, n):
    return int(at * n) if isinstance(at, float) else max(0, min(n - 1, at + n if at < 0 else at))


def run(case, ctx):
    # sizes of the files that are written under a limit
    new = [["new", "a", case["list"], "top"], ["new", "s", {"nodes": case["simple"]}, "top"]]
    probe, at = list(new), []
    for i, f in enumerate(case["fails"]):
        at.append(len(probe) + 1)
        if f["how"] == "full":
            probe += [["write", "a", "p.clf", f["opts"]], ["getb64", "p.clf"]]
        elif f["how"] == "lutfull":
            probe += [["regwrite", "s", f["lut"], kwargs(f["kind"])], ["getb64", f["lut"]]]
    res = ctx.ok(probe)
    size = {i: base64.b64decode(res[at[i]]) for i, f in enumerate(case["fails"]) if f["how"] in ("full", "lutfull")}

    look = [["process", "a", case["vals"], 3], ["info", "a"], ["tree", "a"], ["write", "a", "f.clf", case["opts"]],
            ["gunzip" if case["opts"]["gzip"] else "get", "f.clf"], ["process", "s", case["vals"], 3], ["getfeat"]]
    script = new + look + [["getb64", "f.clf"], ["mkdir", "d.dir/x"], ["mkdir", "d2.clf"]]
    todo = []                                # (position of the result, function)

    def add(step, fun):
        todo.append((len(script), fun))
        script.append(step)

    def fails(what, names=None):
        return lambda r, all_: must_fail(ctx, what, r, names)

    def kept(what, ref):
        def f(r, all_):
            if r["ok"] != all_[ref]["ok"]:
                ctx.fail("%s changed the file that was there: %r, before %r" % (
                    what, base64.b64decode(r["ok"] or "")[:200], base64.b64decode(all_[ref]["ok"] or "")[:200]))
        return f
    orig = len(new) + len(look)              # where f.clf was looked at
    for i, f in enumerate(case["fails"]):
        how, opts = f["how"], f["opts"]
        ctx.label(how)
        if how == "nodir":
            add(["write", "a", "no/such/x." + f["ext"], opts], fails("writing to a missing directory"))
        elif how == "isdir":
            add(["write", "a", "d2.clf", opts], fails("writing over a directory"))
        elif how in ("full", "lutfull"):
            data = size[i]
            if not data:
                ctx.fail("%s wrote nothing" % (f.get("lut") or "writeFile"))
            n = place(f["at"], len(data))
            if how == "full":
                name = "g%d.%s" % (i, f["ext"])
                step = ["write", "a", name, opts]
            else:
                name = "g%d.%s" % (i, f["lut"][2:])
                step = ["regwrite", "s", name, kwargs(f["kind"])]
            if f["there"]:
                script.append(["put", name, "x" * (2 * len(data) if f["opts"]["gzip"] else 3)])
            what = "writing %s on a disk with space for %d of %d bytes" % (name, n, len(data))
            add(["limit", n, step], fails(what, ["OSError", "IOError"]))
            complete = len(data.rstrip()) if not (how == "full" and opts["gzip"]) else len(data)
            if how == "lutfull" and f["lut"][2:] in ("spi1d", "spi3d", "csp"):
                complete = data.rstrip(b"}\r\n\t ").rindex(b" ") + 1
            if n < complete and not name.endswith(".ctl"):
                def refused(r, all_, what=what):
                    if "exc" not in r and r["ok"]:
                        ctx.fail("the file left by %s is read" % what)
                if how == "full" or name.endswith(".clf"):
                    add(["read", "x%d" % i, name],
                        lambda r, all_, what=what: "exc" in r or ctx.fail("the file left by %s is read" % what))
                else:
                    add(["regread", "x%d" % i, name], refused)
        elif how == "text":
            what = "writing with a bad %s" % f["where"]
            script.append(["new", "b", f["list"], "top"])
            add(["write", "b", "f.clf", opts], fails(what))
            add(["getb64", "f.clf"], kept(what, orig))
            if f["by"] == "again":           # the content is corrected, then it can be written
                add(["write", "b", "h.clf", opts], fails(what))
                add(["ls"], lambda r, all_: "h.clf" in r["ok"] and ctx.fail("a refused list leaves a file"))
        elif how in ("read", "readinto"):
            name = "r%d.%s" % (i, f["ext"])
            if f["what"] == "dir":
                name = "d.dir/x"
            elif f["what"] == "gzempty":
                import gzip
                script.append(["put", name, base64.b64encode(gzip.compress(b"", mtime=0)).decode("ascii"), "b64"])
            elif f["what"] != "missing":
                script.append(["put", name, READS[f["what"]]])
            what = "reading a file that is %s" % f["what"]
            if how == "read":
                add(["read", "c", name, f["strict"], "ctor"], fails(what))
            else:                            # into a list that exists
                add(["call", "a", "readFile", name, f["strict"]], fails(what))
        elif how == "strict":
            script.append(["put", "s%d.clf" % i, "<ProcessList id='x'><%s/><Matrix inBitDepth='16f' outBitDepth='16f'>"
                           "<Array dim='3 3 3'>1 0 0 0 1 0 0 0 1</Array></Matrix></ProcessList>" % f["el"]])
            add(["read", "c", "s%d.clf" % i, True, "ctor"], fails("strict reading of <%s>" % f["el"],
                                                                   ["UnknownProcessNodeError"]))
        elif how == "lutdir":
            add(["regwrite", "s", "no/such/" + f["lut"], kwargs(f["kind"])], fails("writing a LUT to a missing directory"))
        elif how == "lutbroken":
            name = "k%d.%s" % (i, f["lut"][2:])
            script.append(["put", name, "the file before"])
            ref = len(script)
            script.append(["getb64", name])
            script.append(["new", "b", f["bad"], "top"])
            what = "sampling a list that cannot be processed for %s" % name
            add(["regwrite", "b", name, kwargs(f["kind"])], fails(what))
            add(["getb64", name], kept(what, ref))
        elif how == "cli":
            src, dst = "f.clf", "o%d.%s" % (i, f["lut"][2:])
            if f["what"] == "missing":
                src = "nothing.clf"
            elif f["what"] == "nodir":
                dst = "no/such/" + dst
            elif f["what"] == "broken":
                src = "b%d.clf" % i
                script += [["new", "b", f["bad"], "top"], ["write", "b", src, {}]]
            else:
                src = "b%d.clf" % i
                script.append(["put", src, READS["cut"]])
            flag = {"1D": "--generate1d", "3D": "--generate3d", "1D_3D_1D": "--generate1d3d1d"}[f["kind"]]
            what = "converting (%s) with the command line" % f["what"]
            add(["cli", "clf2lut", ["-c", src, "-l", dst, flag, "--lutResolution1d", 5, "--lutResolution3d", 3,
                                    "--lutResolution1d3d1d", 4, 3, 4]], fails(what))
            add(["ls"], lambda r, all_, dst=dst, what=what: dst in r["ok"] and ctx.fail("%s leaves %s" % (what, dst)))
        elif how == "values":
            add(["process", "a", ["a", 0.5, None], 3], fails("processing text"))
        elif how == "feature":
            script.append(["feat", 0x1])
            add(["write", "a", "f.clf", {"gzip": True}], fails("compressed writing without the feature",
                                                                ["UnsupportedExtensionError"]))
            add(["getb64", "f.clf"], kept("refused compressed writing", orig))
            script.append(["feat", 0xf])
    end = len(script)
    script += look
    got = ctx.run(script)
    for k in list(range(len(new), len(new) + len(look))) + list(range(end, len(script))):
        if "exc" in got[k]:
            ctx.fail("operation %s %s failed: %s: %s (at %s)" % (
                str(script[k])[:200], "after the failures" if k >= end else "", got[k]["exc"], got[k]["msg"],
                got[k]["where"]))
    for k, fun in todo:
        fun(got[k], got)
    for j, s in enumerate(look):
        a, b = got[len(new) + j]["ok"], got[end + j]["ok"]
        if repr(a) != repr(b):
            ctx.fail("after failures %s gives %r, before %r" % (s, str(b)[:600], str(a)[:600]))
    return True


def tests(tier):
    return [Test("CLF", case(True), run, 1000, 30000), Test("LUT files", case(False), run, 800, 20000)]
