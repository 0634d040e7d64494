"""C27: truncated or corrupted CLF files are refused, not half read."""
import base64

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Test

RULE = ("A case is a generated list written plain, compressed by the library, or compressed as several members, and "
        "places in the file: positions to cut it at and bytes to change (with the change). Every strict prefix of a "
        "compressed file and every prefix of a plain file that ends before the document's last character must make "
        "reading fail; a compressed file with a changed byte must fail or give the XML of the undamaged list. Two "
        "explicit cases try every prefix and every byte of a small file. Non-trivial when the list has a node.")
ASSUMPTIONS = ["changed bytes of a plain file are outside the property (there is no redundancy to detect them)"]


@st.composite
def case(draw):
    spec = draw(gen.plist(meta=draw(st.booleans()), min_nodes=draw(st.sampled_from([0, 1, 1])), max_nodes=3))
    at = st.one_of(st.floats(0, 1, exclude_max=True), st.integers(0, 40), st.integers(-40, -1))
    return {"list": spec, "how": draw(st.sampled_from(["plain", "gzip", "gzip", "members"])),
            "cuts": draw(st.lists(at, min_size=1, max_size=10)),
            "hits": draw(st.lists(st.tuples(at, st.integers(1, 255)), min_size=1, max_size=10)),
            "read": draw(st.sampled_from(["ctor", "readFile"])), "strict": draw(st.booleans()),
            "ext": draw(st.sampled_from(["clf", "clfz", "xml", "gz"])),
            "parts": draw(st.lists(st.floats(0, 1), min_size=1, max_size=3))}


def place(at, n):
    if isinstance(at, float):
        return int(at * n)
    return max(0, min(n - 1, at + n if at < 0 else at))


def run(case, ctx):
    how = case["how"]
    name = "a." + case["ext"]
    head = [["new", "a", case["list"]], ["write", "a", name, {"gzip": how == "gzip"}]]
    data = base64.b64decode(ctx.ok(head + [["getb64", name]])[2])
    if how == "members":
        import gzip
        cuts = sorted(set([0, len(data)] + [int(p * len(data)) for p in case["parts"]]))
        data = b"".join(gzip.compress(data[a:b], mtime=0) for a, b in zip(cuts, cuts[1:]))
    put = ["put", name, base64.b64encode(data).decode("ascii"), "b64"]
    end = data.rindex(b">") + 1 if how == "plain" else len(data)
    opts = [case["strict"], case["read"]]
    if case.get("all"):
        cuts, hits = list(range(end)), [(k, x) for k in range(len(data)) for x in (1, 0x80, 0xff, 0x04)]
    else:
        cuts, hits = [place(c, end) for c in case["cuts"]], [(place(h, len(data)), x) for h, x in case["hits"]]
    if how == "plain":
        hits = []
    want = ctx.ok([put, ["read", "b", name] + opts, ["tree", "b"]])[2]
    for k in range(0, len(cuts), 200):
        part = cuts[k:k + 200]
        res = ctx.run([put] + [o for n in part for o in (["truncate", name, "t." + case["ext"], n],
                                                         ["read", "t%d" % n, "t." + case["ext"]] + opts)])
        for n, r in zip(part, res[2::2]):
            if "exc" not in r:
                ctx.fail("%s: the first %d of %d bytes are read as a list" % (how, n, len(data)))
    for k in range(0, len(hits), 200):
        part = hits[k:k + 200]
        res = ctx.run([put] + [o for n, x in part for o in (
            ["damage", name, "d." + case["ext"], n, x], ["read", "d%d.%d" % (n, x), "d." + case["ext"]] + opts,
            ["tree", "d%d.%d" % (n, x)])])
        for (n, x), r, t in zip(part, res[2::3], res[3::3]):
            if "exc" not in r:
                ctx.label("damaged byte without effect")
                if t.get("ok") != want:
                    ctx.fail("%s: with byte %d of %d changed by %#x another list is read: %r" % (
                        how, n, len(data), x, t))
    ctx.label(how)
    return len(case["list"]["nodes"]) > 0


SMALL = {"attrs": [["id", "x"]], "elems": [["Description", "d"]], "nodes": [
    {"t": "Matrix", "in": "16f", "out": "16f", "dims": [3, 3, 3], "vals": [1.0, 0.5, 0.25] * 3}]}


def tests(tier):
    allof = [{"list": SMALL, "how": h, "cuts": [], "hits": [], "read": "ctor", "strict": False, "ext": "clf",
              "parts": [0.5], "all": True} for h in ("plain", "gzip", "members")]
    return [Test("damage", case(), run, 2000, 60000, explicit=allof)]
