"""Independent parsers of spi1d, spi3d, csp and ctl files, and layout-varying writers."""
import random
import re


class Bad(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def _num(t):
    need(re.match(r"^[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|nan)$", t), "not a number: %r" % t)
    return float(t)


def parse_spi1d(text):
    head, vals, body, closed = {}, [], False, False
    for line in text.split("\n"):
        t = line.split()
        if not t:
            continue
        need(not closed, "text after the table: %r" % line)
        if t[0] == "{":
            need(len(t) == 1 and not body, "bad line %r" % line)
            body = True
        elif t[0] == "}":
            need(len(t) == 1 and body, "bad line %r" % line)
            closed = True
        elif body:
            need(len(t) == head.get("Components", [0])[0], "%r does not hold Components values" % line)
            vals.append([_num(x) for x in t])
        else:
            need(t[0] in ("Version", "From", "Length", "Components") and t[0] not in head, "bad header line %r" % line)
            head[t[0]] = [_num(x) if t[0] == "From" else int(x) for x in t[1:]]
    need(closed, "no end of table")
    need(set(head) == {"Version", "From", "Length", "Components"}, "header lines: %r" % sorted(head))
    need(head["Version"] == [1] and len(head["From"]) == 2, "header: %r" % head)
    need(head["Length"] == [len(vals)], "Length %r, %d entries" % (head["Length"], len(vals)))
    return {"kind": "1d", "range": head["From"], "rows": vals}


def parse_spi3d(text):
    lines = [l.split() for l in text.split("\n") if l.strip()]
    need(lines[0] == ["SPILUT", "1.0"], "first line %r" % lines[0])
    need(lines[1] == ["3", "3"], "second line %r" % lines[1])
    dims = [int(x) for x in lines[2]]
    need(len(dims) == 3, "third line %r" % lines[2])
    rows = []
    k = 0
    for r in range(dims[0]):
        for g in range(dims[1]):
            for b in range(dims[2]):
                need(3 + k < len(lines), "only %d of %d entries" % (k, dims[0] * dims[1] * dims[2]))
                t = lines[3 + k]
                need(len(t) == 6 and [int(x) for x in t[:3]] == [r, g, b],
                     "entry %d is %r, should be for %d %d %d" % (k, t, r, g, b))
                rows.append([_num(x) for x in t[3:]])
                k += 1
    need(len(lines) == 3 + k, "%d lines after the table" % (len(lines) - 3 - k))
    return {"kind": "3d", "dims": dims, "rows": rows}


def parse_csp(text):
    lines = [l for l in text.split("\n") if l.strip()]
    need(lines[0].strip() == "CSPLUTV100", "first line %r" % lines[0])
    kind = lines[1].strip()
    need(kind in ("1D", "3D"), "second line %r" % lines[1])
    k = 2
    if lines[k].strip() == "BEGIN METADATA":
        while lines[k].strip() != "END METADATA":
            k += 1
            need(k < len(lines), "metadata does not end")
        k += 1
    pre = []
    for c in range(3):
        n = int(lines[k])
        ins = [_num(x) for x in lines[k + 1].split()]
        outs = [_num(x) for x in lines[k + 2].split()]
        need(len(ins) == n and len(outs) == n and n >= 2, "prelut of %d entries has %d and %d values" % (
            n, len(ins), len(outs)))
        pre.append([ins, outs])
        k += 3
    dims = [int(x) for x in lines[k].split()]
    rows = [[_num(x) for x in l.split()] for l in lines[k + 1:]]
    need(all(len(r) == 3 for r in rows), "an entry does not have three values")
    if kind == "1D":
        need(len(dims) == 1 and dims[0] == len(rows), "size %r, %d entries" % (dims, len(rows)))
    else:
        need(len(dims) == 3 and dims[0] * dims[1] * dims[2] == len(rows), "size %r, %d entries" % (dims, len(rows)))
        # red fastest in the file; here blue fastest
        r, g, b = dims
        rows = [rows[(k * g + j) * r + i] for i in range(r) for j in range(g) for k in range(b)]
    return {"kind": kind.lower(), "pre": pre, "dims": dims, "rows": rows}


def parse_ctl(text):
    text = re.sub(r"//[^\n]*", "", text)
    need(text.count("{") == text.count("}") and text.count("(") == text.count(")"), "unbalanced brackets")
    main = text.index("void main")
    decl, body = text[:main], text[main:]
    out = {}
    for m in re.finditer(r"const\s+float\s+(\w+)((?:\[\d*\])*)\s*=\s*([^;]*);", decl):
        name, dims, val = m.group(1), re.findall(r"\[(\d*)\]", m.group(2)), m.group(3)
        need(name not in out, "%s is defined twice" % name)
        if not dims:
            out[name] = {"dims": [], "vals": [_num(val.strip())]}
            continue
        v, pos = _nested(val.strip(), 0)
        need(pos == len(val.strip()), "text after the value of %s" % name)
        shape = []
        x = v
        while isinstance(x, list):
            shape.append(len(x))
            need(len(x) > 0, "empty table")
            x = x[0]
        need(len(shape) == len(dims), "%s has %d dimensions, declared %d" % (name, len(shape), len(dims)))
        for s, d in zip(shape, dims):
            need(d == "" or int(d) == s, "%s declared %r is %r" % (name, dims, shape))
        out[name] = {"dims": shape, "vals": _flat(v, shape)}
    return {"defs": out, "body": body}


def _nested(s, i):
    need(s[i] == "{", "a table starts with %r" % s[i:i + 10])
    i += 1
    out = []
    while True:
        while s[i].isspace():
            i += 1
        if s[i] == "{":
            v, i = _nested(s, i)
        else:
            j = i
            while s[j] not in ",}":
                j += 1
            v, i = _num(s[i:j].strip()), j
        out.append(v)
        while s[i].isspace():
            i += 1
        if s[i] == "}":
            return out, i + 1
        need(s[i] == ",", "no comma at %r" % s[i:i + 10])
        i += 1


def _flat(v, shape):
    need(isinstance(v, list) and len(v) == shape[0], "ragged table")
    if len(shape) == 1:
        need(not any(isinstance(x, list) for x in v), "ragged table")
        return list(v)
    return [x for k in v for x in _flat(k, shape[1:])]


# --------------------------------------------------------------------------
# Writers with a free layout; numbers are given as floats and written exactly enough (repr)

STYLE_KEYS = ("blank", "crlf", "numbers", "space", "meta", "order", "trail")


class Out(object):
    def __init__(self, style, seed):
        self.s, self.r, self.lines = style, random.Random(seed), []

    def num(self, v):
        k = self.s.get("numbers", "")
        if k == "mixed":
            k = self.r.choice(["", "exp", "EXP", "plus", "fixed", "dot", "int"])
        if k in ("exp", "EXP"):
            t = "%.17e" % v
            return t.upper() if k == "EXP" else t
        if k == "fixed":
            return "%.20f" % v
        if k == "plus":
            return ("+" if v >= 0 and repr(v)[0] != "-" else "") + repr(v)
        if k == "int" and v == int(v) and abs(v) < 1e15 and not (v == 0 and repr(v)[0] == "-"):
            return "%d" % v
        if k == "dot" and v == int(v) and abs(v) < 1e15:
            return repr(v).replace(".0", ".")
        return repr(v)

    def gap(self):
        return self.r.choice([" ", "  ", "\t", "    "]) if self.s.get("space") else " "

    def line(self, *words, **kw):
        t = ""
        for w in words:
            t += (self.gap() if t else "") + (self.num(w) if isinstance(w, float) else str(w))
        if self.s.get("space") and not kw.get("tight"):
            if self.r.random() < 0.5:
                t = self.r.choice([" ", "\t", "      "]) + t
        if self.s.get("space") and self.r.random() < 0.5:
            t += self.r.choice([" ", "\t", "   "])
        self.lines.append(t)
        self.blank()

    def blank(self, p=0.25):
        if self.s.get("blank") and self.r.random() < p:
            self.lines.extend([self.r.choice(["", "", "  ", "\t"])] * self.r.randint(1, 3))

    def text(self):
        end = "\r\n" if self.s.get("crlf") else "\n"
        t = end.join(self.lines)
        k = self.s.get("trail", "one")
        return t + {"none": "", "one": end, "many": end * 3}[k]


def write_spi1d(rng, rows, style, seed):
    o = Out(style, seed)
    head = [("From", [float(rng[0]), float(rng[1])]), ("Length", [len(rows)]), ("Components", [len(rows[0])])]
    if style.get("order"):
        o.r.shuffle(head)
    o.line("Version", 1)
    for k, v in head:
        o.line(k, *v)
    o.line("{")
    for r in rows:
        o.line(*[float(v) for v in r])
    o.line("}")
    return o.text()


def write_spi3d(dims, rows, style, seed):
    o = Out(style, seed)
    o.s = dict(style, blank=False)
    o.line("SPILUT", "1.0")
    o.line(3, 3)
    o.line(*dims)
    o.s = style
    idx = [(r, g, b) for r in range(dims[0]) for g in range(dims[1]) for b in range(dims[2])]
    order = list(range(len(idx)))
    if style.get("order"):
        if o.r.random() < 0.5:
            order.sort(key=lambda k: idx[k][::-1])
        else:
            o.r.shuffle(order)
    for k in order:
        o.line(*(list(idx[k]) + [float(v) for v in rows[k]]))
    return o.text()


META = ["title \"something\"", "1 2 3", "{", "BEGIN", "2", "0.0 1.0", "END", "3D", "CSPLUTV100", "# comment"]


def write_csp(kind, pre, dims, rows, style, seed):
    """rows: blue fastest for 3D."""
    o = Out(style, seed)
    o.line("CSPLUTV100", tight=True)
    o.line(kind, tight=True)
    m = style.get("meta", "empty")
    if m != "none":
        o.line("BEGIN METADATA", tight=True)
        if m == "text":
            for _ in range(o.r.randint(1, 5)):
                o.line(o.r.choice(META), tight=True)
        o.line("END METADATA", tight=True)
        if not style.get("blank") and m != "none":
            o.lines.append("")
    for ins, outs in pre:
        o.line(len(ins))
        o.line(*[float(v) for v in ins])
        o.line(*[float(v) for v in outs])
    if not style.get("blank"):
        o.lines.append("")
    o.line(*dims)
    if kind == "3D":
        r, g, b = dims
        rows = [rows[(i * g + j) * b + k] for k in range(b) for j in range(g) for i in range(r)]
    for row in rows:
        o.line(*[float(v) for v in row])
    return o.text()
