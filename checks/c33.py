"""C33: LUT formats added by a user take part by what they advertise."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Test

RULE = ("A case is one to five format classes derived from LutFormat (any number of extensions, shared between classes or "
        "listed twice, in any capitalisation, with any capabilities; each method missing, accepting or declining), and a "
        "history of definitions (a class defined again under the same name replaces the old one), queries, writes and "
        "reads. A model says which classes may be asked, that each is asked once with what was given (and, for the table "
        "writers, with the list sampled as the sampling functions do it), that asking stops at the first that accepts, "
        "and what comes back. Non-trivial when a class was asked.")
ASSUMPTIONS = ["the order in which formats are asked is not fixed"]

CAPS = ["read", "write1D", "write3D", "write1D3D1D"]
KIND = {"1D": "write1D", "3D": "write3D", "1D_3D_1D": "write1D3D1D"}
EXTS = ["foo", "bar", "Foo", "cube", "a1", "FOO"]
what = st.sampled_from(["ok", "ok", "ok", "no", "none"])


@st.composite
def klass(draw, names):
    fs = []
    for i in range(draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))):
        fs.append(["format %d" % i, draw(st.sampled_from(EXTS)),
                   draw(st.lists(st.sampled_from(CAPS), max_size=4, unique=True))])
    ms = {}
    for m in CAPS[1:]:
        if draw(st.integers(0, 4)):
            ms[m] = draw(what)
    if draw(st.integers(0, 3)) == 0:
        ms["write"] = draw(what)
    if draw(st.integers(0, 4)):
        ms["read"] = draw(what)
    nodes = [dict(draw(gen.leaf(kinds=["Range", "Gamma"], cc=False)), name="n%d" % draw(st.integers(0, 99)))
             for _ in range(draw(st.integers(1, 2)))]
    return {"name": draw(st.sampled_from(names)), "formats": fs, "methods": ms, "nodes": nodes}


@st.composite
def case(draw):
    names = ["LutFormatFoo", "B", "Other", "Mine", "LutFormatX"]
    classes = []
    for _ in range(draw(st.integers(1, 5))):
        classes.append(draw(klass(names)))
    c = {"list": draw(gen.plist(min_nodes=1, max_nodes=2)), "classes": classes, "steps": []}
    have = [k["name"] for k in classes]
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 9))
        path = draw(st.sampled_from(["o.", "a.b.", "foo/o.", "x.bar."])) + draw(st.sampled_from(
            EXTS + ["fOO", "Bar", "foo", "foo", "bar", "oo", "foo2"]))
        if k == 0:
            d = draw(klass(names))
            have.append(d["name"])
            c["steps"].append(["define", d])
        elif k == 1:
            c["steps"].append(["query", draw(st.sampled_from(have)), draw(st.lists(st.sampled_from(EXTS + ["none"]),
                                                                                  min_size=1, max_size=3))])
        elif k == 2:
            c["steps"].append(["class", draw(st.sampled_from(have)), "read", path])
        elif k < 7:
            kw = {"lutDataFormat": draw(st.sampled_from(sorted(KIND))), "lutResolution1d": draw(st.integers(2, 9)),
                  "lutResolution3d": draw(st.integers(2, 3)),
                  "lutResolution1d3d1d": [draw(st.integers(2, 5)), draw(st.integers(2, 3)), draw(st.integers(2, 5))]}
            if draw(st.booleans()):
                kw["inputMin"] = draw(st.integers(-300, 300)) / 256.0
                kw["inputMax"] = kw["inputMin"] + draw(st.integers(1, 500)) / 256.0
            for s in ("shaperIn", "shaperOut"):
                if draw(st.booleans()):
                    lo = draw(st.integers(-900, 100)) / 128.0
                    kw[s] = [draw(st.sampled_from(["linear", "log2"])), lo, lo + draw(st.integers(64, 900)) / 128.0]
            c["steps"].append(["write", "a", path, kw])
        else:
            kw = {}
            for n in ("inverse", "inversesUseIndexMaps", "inversesUseHalfDomain", "returnProcessNodes"):
                if draw(st.integers(0, 2)) == 0:
                    kw[n] = draw(st.booleans())
            if draw(st.integers(0, 2)) == 0:
                kw["interpolation"] = draw(st.sampled_from(["linear", "tetrahedral", "best"]))
            c["steps"].append(["read", path, kw])
    return c


def caps_of(k, ext):
    return set(x for d, e, cs in k["formats"] if e.lower() == ext.lower() for x in cs)


def run(case, ctx):
    asked = False
    script = [["mkdir", "foo"], ["new", "a", case["list"], "top"]]
    where = {}
    for i, s in enumerate(case["steps"]):
        if s[0] == "write":
            a = dict({"inputMin": 0.0, "inputMax": 1.0, "shaperIn": ["linear", 0.0, 1.0],
                      "shaperOut": ["linear", 0.0, 1.0]}, **s[3])
            r = a["lutResolution1d3d1d"]
            where[i] = len(script)
            script += [["sample", "sample1D", "a", [a["lutResolution1d"], a["inputMin"], a["inputMax"]]],
                       ["sample", "sample3D", "a", [[a["lutResolution3d"]] * 3, a["inputMin"], a["inputMax"]]],
                       ["sample", "sample1D3D1D", "a", [[r[0], [r[1]] * 3, r[2]], a["shaperIn"], a["shaperOut"]]]]
    res = ctx.ok(script + [["formats", case["classes"], case["steps"]]])
    reg = {}
    for k in case["classes"]:
        if k["formats"]:
            reg[k["name"]] = k
    made = {k["name"]: k for k in case["classes"]}
    files = {}
    for i, (s, g) in enumerate(zip(case["steps"], res[-1])):
        if s[0] == "define":
            made[s[1]["name"]] = s[1]
            if s[1]["formats"]:
                reg[s[1]["name"]] = s[1]
        elif s[0] == "query":
            k = made[s[1]]
            there = reg.get(s[1]) is k
            want = [[s[1]] if there else [], [f[0] for f in k["formats"]], [f[1].lower() for f in k["formats"]],
                    sorted(set(c for f in k["formats"] for c in f[2]))]
            for e in s[2]:
                cs = caps_of(k, e)
                flags = [c in cs for c in CAPS]
                want.append([sorted(cs)] + flags + flags)
            want.append(there)
            if g != want:
                ctx.fail("format %r, asked about %r: %r, expected %r" % (k, s[2], g, want))
            asked = True
        elif s[0] == "class":
            k = made[s[1]]
            w = k["methods"].get("read")
            want = {"ok": len(k["nodes"]), "no": 0, "none": None, None: False}[w]
            if g[1] != want or len(g[0]) != (w is not None):
                ctx.fail("read() of %r gives %r" % (k, g))
        elif s[0] == "write":
            ext = s[2].rsplit(".", 1)[1].lower()
            cap = KIND[s[3]["lutDataFormat"]]
            able = {n: k for n, k in reg.items() if cap in caps_of(k, ext)}
            at = where[i]
            asked |= judge(ctx, s, g, able, cap, res[at:at + 3], files)
        else:
            ext = s[1].rsplit(".", 1)[1].lower()
            able = {n: k for n, k in reg.items() if "read" in caps_of(k, ext)}
            asked |= judge_read(ctx, s, g, able)
    return asked


def answers(ctx, s, log, able, outcome):
    """The log must be: any order, each at most once, all but the last declined; the one that accepted."""
    silent = [n for n in able if outcome(able[n]) == "silent"]
    names = [e[0] for e in log]
    if len(set(names)) != len(names) or any(n not in able or n in silent for n in names):
        ctx.fail("%r: asked %r, able are %r" % (s, names, sorted(able)))
    for n in names[:-1]:
        if outcome(able[n]) == "ok":
            ctx.fail("%r: went on after %s accepted: %r" % (s, n, names))
    if names and outcome(able[names[-1]]) == "ok":
        return names[-1]
    if set(names) != set(able) - set(silent):
        ctx.fail("%r: gave up after %r, able are %r" % (s, names, sorted(able)))
    return None


def judge(ctx, s, g, able, cap, sampled, files):
    log, text = g
    a = dict({"inputMin": 0.0, "inputMax": 1.0, "shaperIn": ["linear", 0.0, 1.0], "shaperOut": ["linear", 0.0, 1.0]}, **s[3])

    def outcome(k):
        return k["methods"].get("write") or k["methods"].get(cap, "silent")
    used = answers(ctx, s, log, able, outcome)
    if used:
        files[s[2]] = used
    if text != files.get(s[2]):
        ctx.fail("%r: the file holds %r, expected %r" % (s, text, files.get(s[2])))
    lo, hi, r = a["inputMin"], a["inputMax"], a["lutResolution1d3d1d"]
    for n, m, path, args, kw in log:
        k = able[n]
        if path != s[2]:
            ctx.fail("%r: %s got the path %r" % (s, n, path))
        if "write" in k["methods"]:
            names = ["lutStyle", "lutResolution1d", "lutResolution3d", "lutResolution1d3d1d", "inputMin", "inputMax",
                     "shaperIn", "shaperOut"]
            want = [{"list": "a"}, cap, a["lutResolution1d"], a["lutResolution3d"], r, lo, hi, a["shaperIn"], a["shaperOut"]]
            got = [args[0]] + args[1:] + [kw[x] for x in names[len(args) - 1:] if x in kw]
            meth = "write"
        else:
            meth = cap
            names = {"write1D": ["samples", "lutResolution1d", "inputMin", "inputMax"],
                     "write3D": ["samples", "lutResolution3d", "inputMin", "inputMax"],
                     "write1D3D1D": ["samples1dIn", "lutResolution1dIn", "inputMin", "inputMax", "samples3d",
                                     "lutResolution3d", "samples1dOut", "lutResolution1dOut", "outputMin",
                                     "outputMax"]}[cap]
            got = args + [kw[x] for x in names[len(args):] if x in kw]
            one, three, shaped = sampled
            want = {"write1D": [one, a["lutResolution1d"], lo, hi],
                    "write3D": [three, [a["lutResolution3d"]] * 3, lo, hi],
                    "write1D3D1D": [shaped[0], r[0], shaped[1], shaped[2], shaped[3], [r[1]] * 3, shaped[4], r[2],
                                    shaped[5], shaped[6]]}[cap]
            for j, x in enumerate(got):
                if names[j] in ("samples", "samples3d"):
                    got[j] = flat(x)
        if m != meth or repr(floaty(got)) != repr(floaty(want)):
            ctx.fail("%r: %s.%s got %r, expected %s with %r" % (s, n, m, got, meth, want))
    ctx.label("write: %s" % ("accepted" if used else "declined" if log else "nobody"))
    return bool(log)


def flat(v):
    return [x for e in v for x in flat(e)] if isinstance(v, list) else [v]


def floaty(v):
    if isinstance(v, list):
        return [floaty(x) for x in v]
    return float(v) if isinstance(v, int) and not isinstance(v, bool) else v


def judge_read(ctx, s, g, able):
    log, kind, nodes = g
    used = answers(ctx, s, log, able, lambda k: k["methods"].get("read", "silent"))
    kw = dict({"inverse": False, "interpolation": "linear", "inversesUseIndexMaps": True, "inversesUseHalfDomain": True}, **s[2])
    names = ["inverse", "interpolation", "inversesUseIndexMaps", "inversesUseHalfDomain"]
    for n, m, path, args, k in log:
        got = args + [k[x] for x in names[len(args):] if x in k]
        if m != "read" or path != s[1] or got != [kw[x] for x in names]:
            ctx.fail("%r: %s.%s got %r %r" % (s, n, m, path, got))
    if used is None:
        if kind is not None:
            ctx.fail("%r: nobody read the file, returned %s %r" % (s, kind, nodes))
    else:
        want = "nodes" if kw.get("returnProcessNodes") else "ProcessList"
        if kind != want or nodes != [[n["t"], n["name"]] for n in able[used]["nodes"]]:
            ctx.fail("%r: %s gave %r, returned %s %r" % (s, used, able[used]["nodes"], kind, nodes))
    ctx.label("read: %s" % ("accepted" if used else "declined" if log else "nobody"))
    return bool(log)


def tests(tier):
    return [Test("formats", case(), run, 2000, 50000)]
