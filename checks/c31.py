"""C31: incomplete or malformed LUT files are refused."""
import re

from hypothesis import strategies as st

from checks import c19
from pbt import lutio
from pbt.core import Test

RULE = ("A case is a complete spi1d, spi3d or csp file in any layout (which must be read), and one damage: cut anywhere "
        "before its last number, an entry removed, repeated or short of a number, a number replaced by a word, a size in "
        "the header that the table does not have, or another magic word or version. Reading the damaged file, as list, as "
        "nodes, as an inverse or by the command line, must fail and write nothing. All but the version cases are "
        "non-trivial.")
ASSUMPTIONS = ["a file that is cut inside its very last number cannot be told from one with another number",
               "an spi3d file that repeats an entry is complete if no entry is missing"]

WORDS = ["x", "1,5", "--", "0.5.5", "1e", "nil", "0x10", "+", ".", "#"]


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(["spi1d", "spi3d", "csp1", "csp3"]))
    style = draw(c19.layout())
    seed = draw(st.integers(0, 10 ** 6))
    if fmt in ("spi1d", "csp1"):
        dims = [draw(st.sampled_from([2, 3, 4, 5, 12, 33]))]
        ch = draw(st.sampled_from([1, 3])) if fmt == "spi1d" else 3
    else:
        dims, ch = [draw(st.integers(2, 4)) for _ in range(3)], 3
    n = 1
    for d in dims:
        n *= d
    if fmt == "spi1d":          # rising, so that the inverses can be made
        rows = [[i / 10.0 + draw(st.integers(0, 9)) / 128.0 for _ in range(ch)] for i in range(n)]
        text = lutio.write_spi1d(draw(c19.in_range()), rows, style, seed)
    elif fmt == "spi3d":
        text = lutio.write_spi3d(dims, c19.rows_of(draw, n, 3), style, seed)
    else:
        r = draw(c19.in_range())
        pre = [draw(c19.prelut(*r)) for _ in range(3)]
        text = lutio.write_csp(fmt[3] + "D", pre, dims, c19.rows_of(draw, n, 3), style, seed)
    how = draw(st.sampled_from(["cut", "cut", "drop", "drop2", "dup", "number", "more", "word", "count", "magic"]))
    c = {"fmt": fmt, "text": text, "n": n, "dims": dims, "how": how, "at": draw(st.integers(0, 10 ** 6)),
         "ext": draw(st.sampled_from(["lower", "lower", "upper"])), "pick": draw(st.integers(0, 99)),
         "by": draw(st.sampled_from(["list", "list", "nodes", "cli", "inverse"]))}
    if c["by"] == "inverse":
        c["kw"] = {"inverse": True, "inversesUseIndexMaps": draw(st.booleans()), "inversesUseHalfDomain": False}
    return c


def entries(c, lines):
    """Indices of the lines that hold the table's entries."""
    k = [i for i, l in enumerate(lines) if l.strip() and l.split()[0] not in ("{", "}")]
    return k[-c["n"]:]


def damage(c):
    """The damaged text, or None if there is nothing to damage that way."""
    t, how, at = c["text"], c["how"], c["at"]
    eol = "\r\n" if "\r\n" in t else "\n"
    if how == "cut":
        last = [m.start() for m in re.finditer(r"[^\s{}]+", t)][-1]
        return t[:at % (last + 1)]
    lines = t.split(eol)
    rows = entries(c, lines)
    k = rows[at % len(rows)]
    words = lines[k].split()
    if how == "drop":
        del lines[k]
    elif how == "drop2":                                    # from here to the end, the end mark stays
        lines = [l for i, l in enumerate(lines) if i < k or i not in rows]
    elif how == "dup":
        if c["fmt"] == "spi3d":                             # one entry is there twice, another is missing
            other = rows[(at % len(rows) + 1 + c["pick"] % (len(rows) - 1)) % len(rows)]
            lines[k] = " ".join(lines[other].split()[:3] + words[3:])
        else:
            lines.insert(k, lines[k])
    elif how in ("number", "more", "word"):
        low = 3 if c["fmt"] == "spi3d" else 0
        j = low + c["pick"] % (len(words) - low)
        if how == "number":
            del words[j]
        elif how == "more":
            if c["fmt"] == "spi3d":
                return None
            words.insert(j, words[j])
        else:
            words[j] = WORDS[c["pick"] % len(WORDS)]
        lines[k] = " ".join(words)
    elif how == "count":
        up = 1 + c["pick"] % 3
        if c["fmt"] == "spi1d":
            i = [i for i, l in enumerate(lines) if l.split()[:1] == [["Length", "Components"][c["pick"] % 2]]][0]
            w = lines[i].split()
            w[1] = str(int(w[1]) + up if at % 2 or int(w[1]) <= up else int(w[1]) - up)
            lines[i] = " ".join(w)
        else:
            body = [i for i, l in enumerate(lines) if l.strip()]
            i = body[2] if c["fmt"] == "spi3d" else body[-c["n"] - 1]
            if c["fmt"][:3] == "csp" and c["pick"] % 2:     # a prelut of another size
                i = body[-c["n"] - 1 - [9, 6, 3][at % 3]]
            w = lines[i].split()
            j = (at // 7) % len(w)
            w[j] = str(int(w[j]) + up if at % 2 or int(w[j]) <= up else int(w[j]) - up)
            lines[i] = " ".join(w)
    elif how == "magic":
        if c["fmt"] == "spi1d":
            lines[0] = "Version " + ["2", "0", "3", "10"][c["pick"] % 4]
        elif c["fmt"] == "spi3d":
            i = c["pick"] % 3
            lines[0] = ["SPILUT 2.0", "SPILUT1.0 1.0", "LUT 1.0"][i]
        elif c["pick"] % 2:
            lines[0] = ["CSPLUTV200", "CSPLUT", "SPILUT 1.0"][c["pick"] % 3]
        else:
            i = [i for i, l in enumerate(lines) if l.strip()][1]
            lines[i] = ["2D", "4D", "x"][c["pick"] % 3]
    return eol.join(lines)


def run(c, ctx):
    ext = c["fmt"][:3] if c["fmt"][:3] == "csp" else c["fmt"]
    path = "f." + (ext.upper() if c["ext"] == "upper" else ext)
    bad = damage(c)
    if bad is None:
        return False
    kw = c.get("kw") if c["fmt"] == "spi1d" else None
    res = ctx.ok([["put", path, c["text"]], ["regread", "a", path, kw or {}], ["nodes", "a"]])
    if not res[1]:
        ctx.fail("the complete %s file is not read" % c["fmt"])
    put = ["put", path, bad]
    by = c["by"] if c["by"] != "inverse" or kw else "list"
    what = "the %s file with damage %r" % (c["fmt"], c["how"])
    if by == "cli":
        res = ctx.run([put, ["cli", "lut2clf", ["-l", path, "-c", "out.clf"]], ["ls"]])
        if res[2]["ok"] != [path]:
            ctx.fail("%s was converted, files: %r" % (what, res[2]["ok"]))
    elif by == "nodes":
        r = ctx.run([put, ["regnodes", "b", path, kw or {}]])[1]
        if "exc" not in r and r["ok"] is not None:
            ctx.fail("%s gives the nodes %r" % (what, r["ok"]))
    else:
        r = ctx.run([put, ["regread", "b", path, kw or {}], ["process", "b", [0.25, 0.5, 0.75], 3]])
        if "exc" not in r[1] and r[1]["ok"]:
            ctx.fail("%s is read as a list, which gives %r" % (what, r[2]))
    ctx.label("%s %s" % (c["fmt"], c["how"]))
    ctx.label("by " + by)
    return c["how"] != "magic"


def tests(tier):
    return [Test("refused", case(), run, 2500, 60000)]
