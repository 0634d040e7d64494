import math

from hypothesis import strategies as st

from pbt import gen, model
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("A case is a process list (groups, bypassed nodes, matrices of 3 or 4 rows, in memory or read from a file), a "
        "buffer of 1 to about 60 pixels and a stride. The buffer's result must be bit for bit that of its pixels alone, "
        "of the permuted buffer, and (first three components) of buffers with other extra components and strides. "
        "Non-trivial with two or more pixels that change.")
ASSUMPTIONS = ["strides of at least three, and of at least the rows of the largest matrix",
               "the number of values is a multiple of the stride"]


@st.composite
def case(draw):
    spec = draw(gen.plist(min_nodes=1, max_nodes=4, bypass=True))
    rows = 3
    if draw(st.integers(0, 3)) == 0:
        spec["nodes"].insert(draw(st.integers(0, len(spec["nodes"]))), draw(gen.matrix_node(n=4, encs=False)))
        rows = 4
    d = spec["nodes"][0]["in"]
    stride = draw(st.integers(rows, rows + 3))
    n = draw(st.integers(1, 6))
    vals = [draw(gen.value(d, -1.0, 2.0)) for _ in range(stride * n)]
    if draw(st.integers(0, 3)) == 0:
        reps = draw(st.integers(2, 12))
        vals = (vals * reps)[:60 * stride]
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        vals[draw(st.integers(0, len(vals) - 1))] = draw(st.sampled_from([math.nan, math.inf, -math.inf, 1e30, -1e30]))
    return {"list": spec, "rows": rows, "vals": vals, "stride": stride, "file": draw(st.integers(0, 3)) == 0,
            "rot": draw(st.integers(0, 5)), "fill": draw(gen.value("16f")), "extra": draw(st.integers(0, 2))}


def same(a, b):
    return len(a) == len(b) and all(bits(x) == bits(y) for x, y in zip(a, b))


def run(case, ctx):
    vals, k = case["vals"], case["stride"]
    n = len(vals) // k
    px = [vals[i * k:(i + 1) * k] for i in range(n)]
    h = "a"
    script = [["new", "a", case["list"]]]
    if case["file"]:
        script += [["write", "a", "a.clf"], ["read", "b", "a.clf"]]
        h = "b"
    script.append(["process", h, vals, k])
    base = len(script) - 1
    distinct = [p for _, p in sorted({tuple(map(repr, p)): p for p in px}.items())]
    for i, p in enumerate(distinct):
        script.append(["process", h, list(p), k if i % 2 else 0])
    rot = case["rot"] % n
    perm = list(range(n))[::-1]
    perm = perm[rot:] + perm[:rot]
    script.append(["process", h, [v for i in perm for v in px[i]], k])
    rows = case["rows"]
    k2 = rows + case["extra"]
    wide = [p[:rows] + [case["fill"]] * case["extra"] for p in px]
    script.append(["process", h, [v for p in wide for v in p], k2])
    res = ctx.ok(script)
    got = res[base]
    if len(got) != len(vals):
        ctx.fail("%d values in, %d out" % (len(vals), len(got)))
    out = [got[i * k:(i + 1) * k] for i in range(n)]
    alone = {tuple(map(repr, p)): r for p, r in zip(distinct, res[base + 1:])}
    for i in range(n):
        r = alone[tuple(map(repr, px[i]))]
        if not same(out[i], r):
            ctx.fail("pixel %d %r of %d gives %r in the buffer and %r alone" % (i, px[i], n, out[i], r))
    r = res[base + 1 + len(distinct)]
    for j, i in enumerate(perm):
        if not same(out[i], r[j * k:(j + 1) * k]):
            ctx.fail("pixel %d %r gives %r, but %r at position %d" % (i, px[i], out[i], r[j * k:(j + 1) * k], j))
    r = res[base + 2 + len(distinct)]
    if len(r) != n * k2:
        ctx.fail("%d values in, %d out" % (n * k2, len(r)))
    for i in range(n):
        if not same(out[i][:rows], r[i * k2:i * k2 + rows]):
            ctx.fail("pixel %r gives %r with stride %d, but %r with stride %d" % (
                px[i], out[i][:rows], k, r[i * k2:i * k2 + rows], k2))
    flat = model.flatten(case["list"]["nodes"])
    if not any(s["t"] == "Range" for s in flat):
        ctx.label("extras kept")
        for i in range(n):
            if not same(out[i][rows:], [model.f32(v) for v in px[i][rows:]]):
                ctx.fail("extra components %r came out as %r" % (px[i][rows:], out[i][rows:]))
    ctx.label("pixels>1" if n > 1 else "one pixel")
    return n > 1 and not same(got, [model.f32(v) for v in vals])


@st.composite
def large(draw):
    spec = draw(gen.plist(min_nodes=1, max_nodes=2, bypass=True))
    stride = draw(st.integers(3, 5))
    d = spec["nodes"][0]["in"] if spec["nodes"] else "16f"
    n = draw(st.sampled_from([70, 140, 300, 600, 1100, 2100, 4200, 8300, 17000]))
    if len(model.flatten(spec["nodes"])) > 2:
        n = min(n, 2100)
    colors = [[draw(gen.value(d, -1.0, 2.0)) for _ in range(stride)] for _ in range(draw(st.integers(2, 12)))]
    return {"list": spec, "stride": stride, "n": n, "colors": colors, "mul": draw(st.sampled_from([1, 7, 31, 101])),
            "div": draw(st.sampled_from([1, 1, 3, 50])), "type": draw(st.sampled_from(["list", "f32"]))}


def run_large(case, ctx):
    """Whole rows and images: every pixel as if it were alone."""
    cs, k, n = case["colors"], case["stride"], case["n"]
    order = [(i // case["div"] * case["mul"] + i * i // 97) % len(cs) for i in range(n)]
    vals = [v for j in order for v in cs[j]]
    script = [["new", "a", case["list"]], ["process", "a", vals, k, {"kind": case["type"]}]]
    script += [["process", "a", c, k] for c in cs]
    res = ctx.ok(script)
    got, alone = res[1], res[2:]
    if len(got) != len(vals):
        ctx.fail("%d values in, %d out" % (len(vals), len(got)))
    for i, j in enumerate(order):
        if not same(got[i * k:(i + 1) * k], alone[j]):
            ctx.fail("pixel %d %r of %d gives %r in the buffer and %r alone" % (i, cs[j], n, got[i * k:(i + 1) * k], alone[j]))
    ctx.label("large %d" % n)
    return not same(got, [model.f32(v) for v in vals])


def tests(tier):
    return [Test("large buffers", large(), run_large, 210, 4000),
            Test("independence", case(), run, 2500, 60000)]
