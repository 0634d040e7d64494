"""Single nodes against the reference model, built in memory or read from a file."""
from hypothesis import strategies as st

from . import gen, model, tables


@st.composite
def node_case(draw, node, min_stride=3, max_stride=6, lo=-4.0, hi=4.0, via=True, maxpx=4):
    s = draw(node)
    span = gen.SPAN.get(s["t"], (lo, hi))
    ms = min_stride
    if s["t"] == "Matrix":
        ms = s["dims"][0]
    vals, stride = draw(gen.pixels(s["in"], ms, max(ms, max_stride), maxpx, span[0], span[1]))
    c = {"node": s, "vals": vals, "stride": stride}
    if via:
        c["via"] = draw(st.sampled_from(["mem", "mem", "mem", "file", "gz", "direct"]))
    if not stride:
        c["dflt"] = draw(st.booleans())
    return c


def run_node(case, ctx):
    s, vals, stride = case["node"], case["vals"], case["stride"]
    via = case.get("via", "mem")
    plist = {"nodes": [s]}
    opts = {"stride": "default"} if case.get("dflt") else {}
    if via == "mem":
        got = ctx.ok([["new", "a", plist], ["process", "a", vals, stride, opts]])[-1]
        ref = s
    elif via == "direct":
        got = ctx.ok([["nodeproc", s, vals, stride, opts]])[-1]
        ref = s
    else:
        name = "x.clfz" if via == "gz" else "x.clf"
        got = ctx.ok([["new", "a", plist], ["write", "a", name, {"gzip": via == "gz"}],
                      ["read", "b", name, True], ["process", "b", vals, stride, opts]])[-1]
        ref = model.through_file(s)
    model.check_pixels(ctx, ref, vals, stride, got, via)
    ctx.label(s["t"] + ":" + via)
    return any(f(a) != f(b) for f in (float,) for a, b in zip(got, vals))


def size_of(s):
    return len(tables.values(s["vals"]))


@st.composite
def pair_case(draw, node, inverse, lo=-0.5, hi=1.5):
    """A forward node, the same node in its reverse style, and pixels."""
    s = draw(node)
    d = s["out"] = draw(st.sampled_from(gen.FLOAT_DEPTHS))
    r = dict(s, style=inverse[s["style"]])
    r["in"], r["out"] = d, draw(gen.depth)
    if draw(st.booleans()):
        s, r = dict(r, **{"in": draw(gen.depth), "out": d}), dict(s, **{"in": d, "out": draw(gen.depth)})
    vals, stride = draw(gen.pixels(s["in"], 3, 5, 4, lo, hi))
    return {"nodes": [s, r], "vals": vals, "stride": stride}


def run_pair(case, ctx, skip):
    """The second node undoes the first wherever skip() does not say a limit was hit."""
    s, r = case["nodes"]
    vals, stride = case["vals"], case["stride"] or len(case["vals"])
    got = ctx.ok([["new", "a", {"nodes": [s, r]}], ["process", "a", vals, case["stride"]]])[-1]
    k = model.size(r["out"]) / model.size(s["in"])
    hit = False
    for p in range(len(vals) // stride):
        px = vals[p * stride:(p + 1) * stride]
        mid, tol = model.expect(s, px)
        if skip(s, r, px, mid):
            ctx.label("limited")
            continue
        # what an error of the size of single precision in between can do
        back, rtol = model.expect(r, mid)
        for j in range(3):
            for sg in (1, -1):
                q = list(mid)
                q[j] += sg * 4 * tol[j]
                for i, b in enumerate(model.node(r, q)):
                    rtol[i] += abs(b - back[i])
        for i in range(3):
            want = px[i] * k
            if rtol[i] > 1e-2 * max(abs(want), model.size(r["out"])):
                ctx.label("ill-conditioned")
                continue
            hit = True
            if not abs(got[p * stride + i] - want) <= 4 * rtol[i] + 1e-6 * abs(want):
                ctx.fail("%s then %s of the same parameters: pixel %r channel %d gave %r, expected %r (+- %.3g)" % (
                    s["style"], r["style"], px, i, got[p * stride + i], want, 4 * rtol[i]))
            ctx.label("undone")
    return hit
