import base64
import gzip
import io

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Test
from pbt.xmlio import bits

RULE = ("A case is a process list, pixels, two file names (any extension), what the files held before, and how a gzip "
        "stream of the document is made. Written plain and compressed, the documents must be the same bytes and the "
        "lists read from either (and from an independently compressed copy) must be the same list and give the same "
        "bits. Non-trivial when the list has nodes.")
ASSUMPTIONS = ["the Duiker Research features are on"]

NAMES = ["a.clf", "a.clfz", "a.xml", "a.gz", "a", "A.CLF", "a.b.clf.gz", "a.ctf", "ä.clf"]
BEFORE = [None, "text", "long", "gz", "clf", "clfz"]


@st.composite
def case(draw):
    spec = draw(gen.plist(meta=True, max_nodes=3, bypass=True))
    d = spec["nodes"][0]["in"] if spec["nodes"] else "16f"
    vals, stride = draw(gen.pixels(d, 3, 4, 2, -1.0, 2.0, long=False))
    return {"list": spec, "vals": vals, "stride": stride,
            "names": draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=2, unique=True)),
            "before": [draw(st.sampled_from(BEFORE)) for _ in range(2)],
            "level": draw(st.sampled_from([0, 1, 6, 9])), "header": draw(st.booleans()),
            "members": draw(st.sampled_from([1, 1, 2, 3])), "how": draw(st.sampled_from(["ctor", "readFile"]))}


def prepare(name, before):
    if before is None:
        return []
    if before in ("clf", "clfz"):
        return [["new", "z", {"attrs": [["name", "previous"]], "nodes": [
            {"t": "Range", "in": "8i", "out": "8i", "style": "", "lim": {}}] * 3}],
            ["write", "z", name, {"gzip": before == "clfz"}]]
    data = {"text": b"something else", "long": b"<x>" * 20000, "gz": gzip.compress(b"junk" * 5000, mtime=0)}[before]
    return [["put", name, base64.b64encode(data).decode(), "b64"]]


def compress(data, case):
    out = b""
    n = case["members"]
    for i in range(n):
        part = data[len(data) * i // n:len(data) * (i + 1) // n]
        f = io.BytesIO()
        with gzip.GzipFile("name.clf" if case["header"] else "", "wb", case["level"], f, mtime=12345) as g:
            g.write(part)
        out += f.getvalue()
    return base64.b64encode(out).decode()


def run(case, ctx):
    p, z = case["names"]
    head = prepare(p, case["before"][0]) + prepare(z, case["before"][1])
    script = head + [["new", "a", case["list"]], ["write", "a", p], ["write", "a", z, {"gzip": True}],
                     ["getb64", p], ["getb64", z]]
    res = ctx.ok(script)
    plain, comp = base64.b64decode(res[-2]), base64.b64decode(res[-1])
    if comp[:2] != b"\x1f\x8b":
        ctx.fail("the compressed file is not a gzip file")
    try:
        inner = gzip.decompress(comp)
    except (OSError, EOFError) as e:
        ctx.fail("the compressed file does not decompress: %s" % e)
    if inner != plain:
        ctx.fail("decompressed document (%d bytes) differs from the plain one (%d bytes)" % (len(inner), len(plain)))
    out = []
    steps = [["put", p, base64.b64encode(plain).decode(), "b64"], ["put", z, base64.b64encode(comp).decode(), "b64"],
             ["put", "other.bin", compress(plain, case), "b64"]]
    for h, name in (("p", p), ("z", z), ("o", "other.bin")):
        steps += [["read", h, name, True, case["how"]], ["process", h, case["vals"], case["stride"]], ["nodes", h],
                  ["write", h, h + ".out"], ["getb64", h + ".out"]]
    # the other kind of file at the same path
    steps += [["put", p, base64.b64encode(comp).decode(), "b64"], ["put", z, base64.b64encode(plain).decode(), "b64"]]
    for h, name in (("s", p), ("t", z)):
        steps += [["read", h, name, False, case["how"]], ["process", h, case["vals"], case["stride"]], ["nodes", h],
                  ["write", h, h + ".out"], ["getb64", h + ".out"]]
    res = ctx.ok(steps)
    out = [res[4:8], res[9:13], res[14:18], res[21:25], res[26:30]]
    for what, got in zip(("compressed", "foreign compressed", "compressed after plain", "plain after compressed"),
                         [out[1], out[2], out[3], out[4]]):
        if list(map(bits, got[0])) != list(map(bits, out[0][0])):
            ctx.fail("%s file gives other pixel values: %r, plain %r" % (what, got[0], out[0][0]))
        if got[1] != out[0][1] or got[3] != out[0][3]:
            ctx.fail("%s file is read as another list than the plain one" % what)
    ctx.label("nodes" if case["list"]["nodes"] else "empty")
    return bool(case["list"]["nodes"])


def tests(tier):
    return [Test("gzip", case(), run, 1500, 40000)]
