"""CLF documents as data: an independent reader of written files and an independent writer of foreign ones.

canon(doc) form:
  list  {"attrs": {..}, "elems": [[type, text] | ["Info", [[type, text]..]]], "nodes": [node..]}
  node  {"t", "attrs", "descs", "dyn", "params", "imaps", "array", "nodes"}
"""
import random
import struct
import xml.etree.ElementTree as ET

from . import model, tables
from .tables import f16, f32, half_to_float

FLAGS = ("bypass", "rawHalfs", "halfDomain", "defaultRange")
OFF = ("False", "false", "0")
DEPTHLESS = ("ColorCorrection",)
RANGE_ELEMS = ("minInValue", "maxInValue", "minOutValue", "maxOutValue")
DEFAULT_STYLE = {"Range": "clamp", "ASCCDL": "Fwd", "Gamma": "basicFwd", "Log": "log10", "ExposureContrast": "linear"}
TAGS = {"ASCCDL": "ASC_CDL"}


class BadDocument(Exception):
    pass


def tag_of(e):
    t = e.tag
    t = t[t.find("}") + 1:]
    return t.replace("-", "").replace("_", "")


def text_of(e):
    if len(e):
        raise BadDocument("children in %s" % e.tag)
    return e.text or ""


def bits(v):
    return struct.pack(">d", v) if v == v else b"nan"


def decode(words, enc, raw):
    if raw or enc == "integer16bit":
        return [half_to_float(int(w)) for w in words]
    if enc == "hex16bit":
        return [struct.unpack(">e", bytes.fromhex(w))[0] for w in words]
    if enc == "integer32bit":
        return [struct.unpack(">f", struct.pack(">I", int(w)))[0] for w in words]
    if enc == "hex32bit":
        return [struct.unpack(">f", bytes.fromhex(w))[0] for w in words]
    if enc == "integer64bit":
        return [struct.unpack(">d", struct.pack(">Q", int(w)))[0] for w in words]
    if enc == "hex64bit":
        return [struct.unpack(">d", bytes.fromhex(w))[0] for w in words]
    return [f32(float(w)) for w in words]


def _flag(v):
    return v is not None and v not in OFF


def _node(e):
    t = tag_of(e)
    a = dict(e.attrib)
    n = {"t": t, "attrs": {}, "descs": [], "dyn": [], "params": [], "imaps": [], "array": None, "nodes": []}
    raw = _flag(a.get("rawHalfs"))
    lim, cdl = {}, {}
    for c in e:
        ct = tag_of(c)
        if ct == "Description":
            n["descs"].append(text_of(c))
        elif ct == "DynamicParameter":
            n["dyn"].append(c.attrib["param"])
        elif ct in RANGE_ELEMS and t == "Range":
            if ct in lim:
                raise BadDocument("%s twice" % ct)
            lim[ct] = float(text_of(c))
        elif ct == "IndexMap" and t in ("LUT1D", "LUT3D"):
            pairs = [w.split("@") for w in text_of(c).split()]
            n["imaps"].append([int(c.attrib["dim"]), [float(p[0]) for p in pairs], [float(p[1]) for p in pairs]])
        elif ct == "Array" and t in ("LUT1D", "LUT3D", "Matrix"):
            if n["array"] is not None:
                raise BadDocument("two arrays")
            enc = c.attrib.get("floatEncoding", "string")
            n["array"] = {"dim": [int(x) for x in c.attrib["dim"].split()],
                          "vals": decode(text_of(c).split(), enc, raw), "enc": enc}
        elif ct.lower() in ("sopnode", "satnode") and t in ("ASCCDL", "ColorCorrection"):
            for v in c:
                k = tag_of(v).lower()
                if k not in ("slope", "offset", "power", "saturation") or k in cdl:
                    raise BadDocument("%s in %s" % (v.tag, c.tag))
                cdl[k] = [float(x) for x in text_of(v).split()]
        elif ct == "GammaParams" and t == "Gamma":
            n["params"].append([float(c.attrib["gamma"]), float(c.attrib.get("offset", 0.0)), c.attrib.get("channel")])
        elif ct == "LogParams" and t == "Log":
            n["params"].append([float(c.attrib.get(k, d)) for k, d in
                                (("gamma", .6), ("refWhite", 685), ("refBlack", 95), ("highlight", 1), ("shadow", 0))]
                               + [c.attrib.get("channel")])
        elif ct == "ECParams" and t == "ExposureContrast":
            n["params"].append([float(c.attrib.get(k, d)) for k, d in
                                (("exposure", 0), ("contrast", 1), ("pivot", 1))])
        elif t == "Group":
            n["nodes"].append(_node(c))
        else:
            raise BadDocument("element %s in %s" % (c.tag, e.tag))
    if t == "Range":
        n["params"] = sorted(lim.items())
    if t in ("ASCCDL", "ColorCorrection"):
        n["params"] = sorted(cdl.items())
    n["attrs"] = canon_attrs(t, a)
    return n


def canon_attrs(t, a):
    a = dict(a)
    for k in FLAGS:
        if not _flag(a.pop(k, None)):
            continue
        a[k] = True
    for k in ("id", "name"):
        if not a.get(k):
            a.pop(k, None)
    if t not in DEPTHLESS:
        a.setdefault("inBitDepth", "16f")
        a.setdefault("outBitDepth", "16f")
    else:
        # a color correction has no bit depths or style; they mean nothing when present
        for k in ("inBitDepth", "outBitDepth", "style"):
            a.pop(k, None)
    if t in DEFAULT_STYLE:
        a.setdefault("style", DEFAULT_STYLE[t])
    if t == "LUT1D":
        a.setdefault("interpolation", "linear")
    if t == "LUT3D":
        a.setdefault("interpolation", "trilinear")
    return a


def parse(data):
    """The content of a CLF document (bytes)."""
    root = ET.fromstring(data)
    if tag_of(root) != "ProcessList":
        raise BadDocument("root element %s" % root.tag)
    out = {"attrs": dict(root.attrib), "elems": [], "nodes": []}
    for e in root:
        t = tag_of(e)
        if t in ("Description", "InputDescriptor", "OutputDescriptor"):
            out["elems"].append([t, text_of(e)])
        elif t == "Info":
            out["elems"].append([t, [[tag_of(c), text_of(c)] for c in e]])
        else:
            if t not in model.NODES and t not in ("Group", "Reference"):
                raise BadDocument("element %s" % e.tag)
            out["nodes"].append(_node(e))
    return out


# --------------------------------------------------------------------------
# What a list specification must look like as a document

def _spec_attrs(s):
    t = s["t"]
    a = {}
    if t not in DEPTHLESS:
        a.update(inBitDepth=s["in"], outBitDepth=s["out"])
    for k, v in (("id", s.get("id")), ("name", s.get("name"))):
        if v:
            a[k] = v
    if s.get("style"):
        a["style"] = s["style"]
    if s.get("interp"):
        a["interpolation"] = s["interp"]
    for k in ("rawHalfs", "halfDomain", "defaultRange"):
        if s.get(k):
            a[k] = "True"
    if s.get("bypass"):
        a["bypass"] = "True"
    for k in ("path", "basePath", "alias"):
        if s.get(k):
            a[k] = s[k]
    for k, v in s.get("extra", []):
        a[k] = v
    return canon_attrs(t, a)


def expected_node(s):
    t = s["t"]
    n = {"t": t, "attrs": _spec_attrs(s), "descs": list(s.get("descs", [])), "dyn": list(s.get("dyn", [])),
         "params": [], "imaps": [], "array": None, "nodes": []}
    if t == "Range":
        lim = s.get("lim", {})
        n["params"] = sorted((k + "Value", float(v)) for k, v in lim.items())
    elif t in ("ASCCDL", "ColorCorrection"):
        p = {}
        for k in ("slope", "offset", "power"):
            if k in s:
                p[k] = [float(x) for x in s[k]]
        if "sat" in s:
            p["saturation"] = [float(s["sat"])]
        n["params"] = sorted(p.items())
    elif t == "Gamma":
        n["params"] = [[float(g), float(o), c] for g, o, c in s["params"]]
    elif t == "Log":
        n["params"] = [[float(x) for x in p[:5]] + [p[5]] for p in s["params"]]
    elif t == "ExposureContrast":
        n["params"] = [[float(x) for x in (s.get("ecp") or [0, 1, 1])]]
    if "vals" in s:
        vals = model.stored_values(tables.values(s["vals"]), s.get("enc", "string"), s.get("rawHalfs", False))
        if t == "LUT1D":
            dim = [len(vals) // s["ch"], s["ch"]]
        elif t == "LUT3D":
            dim = list(s["dims"]) + [3]
        else:
            dim = list(s["dims"])
        n["array"] = {"dim": dim, "vals": vals, "enc": s.get("enc", "string")}
    for m in s.get("imaps") or []:
        n["imaps"].append([len(m[0]), [float(x) for x in m[0]], [float(x) for x in m[1]]])
    if t == "Group":
        n["nodes"] = [expected_node(k) for k in s["nodes"]]
    return n


def expected(spec):
    out = {"attrs": {}, "elems": [], "nodes": [expected_node(n) for n in spec.get("nodes", [])]}
    for k, v in spec.get("attrs", []):
        out["attrs"][k] = "%s" % v
    for e in spec.get("elems", []):
        if e[0] == "Info":
            kids = []
            if e[1]:
                kids.append(["AppRelease", e[1]])
            if e[2]:
                kids.append(["Copyright", e[2]])
            out["elems"].append(["Info", kids + [list(k) for k in (e[3] if len(e) > 3 else [])]])
        else:
            out["elems"].append([e[0], e[1]])
    return out


def _params(p):
    return [list(x) if isinstance(x, (list, tuple)) else x for x in p]


def node_diff(a, b, path, ignore=()):
    """First difference between two canonical nodes (got, expected), or None."""
    if a["t"] != b["t"]:
        return "%s: type %s, expected %s" % (path, a["t"], b["t"])
    path = "%s(%s)" % (path, a["t"])
    for k in sorted(set(a["attrs"]) | set(b["attrs"])):
        if k not in ignore and a["attrs"].get(k) != b["attrs"].get(k):
            return "%s: attribute %s is %r, expected %r" % (path, k, a["attrs"].get(k), b["attrs"].get(k))
    for k in ("descs", "dyn"):
        if a[k] != b[k]:
            return "%s: %s %r, expected %r" % (path, k, a[k], b[k])
    if _params(a["params"]) != _params(b["params"]):
        return "%s: parameters %r, expected %r" % (path, a["params"], b["params"])
    if a["imaps"] != b["imaps"]:
        return "%s: index maps %r, expected %r" % (path, a["imaps"], b["imaps"])
    if (a["array"] is None) != (b["array"] is None):
        return "%s: array is %s" % (path, "missing" if a["array"] is None else "unexpected")
    if a["array"] is not None:
        x, y = a["array"], b["array"]
        if x["dim"] != y["dim"]:
            return "%s: table dimensions %r, expected %r" % (path, x["dim"], y["dim"])
        if "enc" not in ignore and x["enc"] != y["enc"]:
            return "%s: encoding %r, expected %r" % (path, x["enc"], y["enc"])
        if len(x["vals"]) != len(y["vals"]):
            return "%s: %d table values, expected %d" % (path, len(x["vals"]), len(y["vals"]))
        for i, (u, v) in enumerate(zip(x["vals"], y["vals"])):
            if u != v and bits(u) != bits(v):
                return "%s: table value %d is %r, expected %r" % (path, i, u, v)
            if u == 0.0 and bits(u) != bits(v):
                return "%s: table value %d is %r, expected %r" % (path, i, u, v)
    if len(a["nodes"]) != len(b["nodes"]):
        return "%s: %d nodes, expected %d" % (path, len(a["nodes"]), len(b["nodes"]))
    for i, (u, v) in enumerate(zip(a["nodes"], b["nodes"])):
        d = node_diff(u, v, "%s.%d" % (path, i), ignore)
        if d:
            return d
    return None


def diff(a, b, ignore=(), list_ignore=()):
    for k in sorted(set(a["attrs"]) | set(b["attrs"])):
        if k not in list_ignore and a["attrs"].get(k) != b["attrs"].get(k):
            return "list attribute %s is %r, expected %r" % (k, a["attrs"].get(k), b["attrs"].get(k))
    if a["elems"] != b["elems"]:
        return "list elements %r, expected %r" % (a["elems"], b["elems"])
    if len(a["nodes"]) != len(b["nodes"]):
        return "%d nodes, expected %d" % (len(a["nodes"]), len(b["nodes"]))
    for i, (u, v) in enumerate(zip(a["nodes"], b["nodes"])):
        d = node_diff(u, v, "node %d" % i, ignore)
        if d:
            return d
    return None


# --------------------------------------------------------------------------
# A writer of foreign documents

FREE = {"ns": None, "enc": "utf-8", "decl": True, "comments": False, "cdata": False, "dash": False, "shuffle": False,
        "quotes": False, "space": False, "numbers": "repr", "unknown_attrs": False, "unknown_elems": False,
        "omit": False, "flags": "True", "hexcase": False, "crlf": False, "order": False, "case": False, "lone": False}

UNKNOWN_TAGS = ["Vendor", "LUT2D", "MetaData", "matrices", "Range2", "LUT", "Gain", "LUT1DX", "x.y", "Comments", "Info.x", "Range.2",
                "ProcessNode", "Process_Node"]


class _Writer(object):
    def __init__(self, style, seed):
        self.s = dict(FREE, **style)
        self.r = random.Random(seed)

    # ---- small choices
    def yes(self, key, p=0.4):
        return bool(self.s[key]) and self.r.random() < p

    def gap(self):
        """White space (with comments) between elements."""
        out = self.r.choice(["", " ", "\n", "\n\t", "\n  \n", "\t"]) if self.s["space"] else "\n"
        if self.yes("comments", 0.25):
            out += self.r.choice(["<!-- c -->", "<!-- <Matrix> & -->", "<?pi data?>", "<!---->",
                                  "<!-- <Array dim='2 1'>1 2</Array> -->"]) + self.r.choice(["", "\n"])
        return out

    def sep(self):
        """White space (with comments) between numbers."""
        if not self.s["space"]:
            return " "
        out = self.r.choice([" ", " ", "\n", "\t", "  ", " \n ", "\n\n"])
        if self.yes("comments", 0.05):
            out += "<!-- 1.0 -->" + self.r.choice(["", " "])
        return out

    def pad(self, text):
        if not self.s["space"]:
            return text
        return self.r.choice(["", " ", "\n", "\n\t "]) + text + self.r.choice(["", " ", "\n", "\t"])

    def num(self, v):
        v = float(v)
        if v != v:
            return "nan"
        if v in (float("inf"), float("-inf")):
            return "inf" if v > 0 else "-inf"
        n = self.s["numbers"]
        if n == "mixed":
            n = self.r.choice(["repr", "exp", "plus", "int", "EXP", "dot"])
        t = repr(v)
        if n == "exp":
            t = "%.17e" % v
        elif n == "EXP":
            t = "%.17E" % v
        elif n == "int" and v == int(v) and abs(v) < 1e15 and bits(v) != bits(-0.0):
            t = "%d" % v
        elif n == "plus" and not t.startswith("-"):
            t = "+" + t
        elif n == "dot":
            if t.startswith("0."):
                t = t[1:]
            elif t.endswith(".0"):
                t = t[:-1]
        return t

    def enc_word(self, v, enc, raw):
        if raw or enc == "integer16bit":
            return str(struct.unpack(">H", struct.pack(">e", v))[0])
        pack = {"hex16bit": ">e", "integer32bit": ">f", "hex32bit": ">f", "integer64bit": ">d", "hex64bit": ">d"}.get(enc)
        if pack is None:
            return self.num(v)
        data = struct.pack(pack, v)
        if enc.startswith("hex"):
            h = data.hex()
            return self.r.choice([h.upper(), h]) if self.s["hexcase"] else h
        return str(int.from_bytes(data, "big"))

    def esc(self, text, attr=False):
        out = []
        for ch in text:
            if ch == "&":
                out.append("&amp;")
            elif ch == "<":
                out.append("&lt;")
            elif ch == ">":
                out.append("&gt;")
            elif ch == '"':
                out.append("&quot;")
            elif ch == "'":
                out.append("&apos;")
            elif attr and ch in "\n\t\r":
                out.append("&#%d;" % ord(ch))
            elif self.yes("quotes", 0.05):
                out.append(self.r.choice(["&#%d;" % ord(ch), "&#x%x;" % ord(ch)]))
            else:
                out.append(ch)
        return "".join(out)

    def text(self, t):
        if t and self.yes("cdata", 0.5) and "]]>" not in t and self.s["enc"] in ("utf-8", "utf-8-sig", "utf-16"):
            return "<![CDATA[" + t + "]]>"
        return self.esc(t)

    def tag(self, t):
        if self.s["dash"] and self.r.random() < 0.7:
            for _ in range(self.r.choice([1, 1, 1, 2, 3])):
                i = self.r.randint(1, len(t))
                t = t[:i] + self.r.choice("-_") + t[i:]
        if self.s["ns"] == "prefix":
            t = "clf:" + t
        return t

    def flag(self, on):
        f = self.s["flags"]
        if f == "mixed":
            f = self.r.choice(["True", "true"])
        return f if on else {"True": "False", "true": "false"}[f]

    def element(self, t, attrs, body):
        name = self.tag(t)
        attrs = list(attrs)
        if self.yes("unknown_attrs", 0.4):
            attrs.append(self.r.choice([("vendor", "x"), ("zz", "1 < 2"), ("ext:info", "e"), ("Dim", "9"),
                                        ("ext:bypass", "True"), ("version", "3.0")]))
        if self.s["shuffle"]:
            self.r.shuffle(attrs)
        out = "<" + name
        for k, v in attrs:
            q = self.r.choice("'\"") if self.s["quotes"] else '"'
            eq = self.r.choice(["=", " = ", "= "]) if self.s["space"] else "="
            out += (self.r.choice([" ", "\n   ", "  "]) if self.s["space"] else " ") + k + eq + q + self.esc(v, True) + q
        if not body and self.s["space"] and self.r.random() < 0.5:
            return out + "/>"
        return out + self.r.choice(["", " "] if self.s["space"] else [""]) + ">" + body + "</" + name + ">"

    def unknown(self):
        t = self.r.choice(UNKNOWN_TAGS)
        return "<%s>%s</%s>" % (t, self.r.choice(["", "text", "1 2 3", "<Array dim='1 1'>5</Array>",
                                                  "<Matrix/>", "<Range><minInValue>3</minInValue></Range>"]), t)

    # ---- nodes
    def array(self, s, dims):
        vals = tables.values(s["vals"])
        enc, raw = s.get("enc", "string"), bool(s.get("rawHalfs"))
        attrs = [("dim", self.sep_plain().join(str(d) for d in dims))]
        if enc != "string":
            attrs.append(("floatEncoding", enc))
        elif self.s["omit"] and self.r.random() < 0.3:
            attrs.append(("floatEncoding", "string"))
        words = [self.enc_word(v, enc, raw) for v in vals]
        if self.yes("cdata", 0.4):
            body = "<![CDATA[" + " ".join(words) + "]]>"
        elif self.s["space"]:
            body = self.pad("".join(w + self.sep() for w in words[:-1]) + words[-1])
        else:
            body = " ".join(words)
        return self.element("Array", attrs, body)

    def sep_plain(self):
        return self.r.choice([" ", "  "]) if self.s["space"] else " "

    def node(self, s):
        t = s["t"]
        if t == "Unknown":
            body = "".join(self.node(k) for k in s.get("nodes", []))
            return "<%s>%s</%s>" % (s["tag"], body, s["tag"])
        omit = self.s["omit"]
        attrs = []

        def put(k, v, default=None):
            if v == default and omit and self.r.random() < 0.8:
                return
            attrs.append((k, v))
        if t != "ColorCorrection":
            put("inBitDepth", s["in"], "16f")
            put("outBitDepth", s["out"], "16f")
        for k in ("id", "name", "path", "basePath", "alias"):
            if s.get(k):
                attrs.append((k, s[k]))
        if t != "ColorCorrection" and s.get("style"):
            put("style", s["style"], DEFAULT_STYLE.get(t, "clamp"))
        if t in ("LUT1D", "LUT3D"):
            if s.get("interp"):
                put("interpolation", s["interp"], {"LUT1D": "linear", "LUT3D": "trilinear"}[t])
        flags = {"LUT1D": ["rawHalfs", "halfDomain"], "Range": ["defaultRange"]}.get(t, []) + ["bypass"]
        for k in flags:
            if s.get(k):
                attrs.append((k, self.flag(True)))
            elif omit and self.r.random() < 0.3:
                attrs.append((k, self.flag(False)))
        for k, v in s.get("extra", []):
            attrs.append((k, v))
        kids = []           # lists whose own order is fixed
        if s.get("descs"):
            kids.append([self.element("Description", [], self.text(d)) for d in s["descs"]])
        if s.get("dyn"):
            kids.append([self.element("DynamicParameter", [("param", d)], "") for d in s["dyn"]])
        if t == "Range":
            for k, v in s.get("lim", {}).items():
                kids.append([self.element(k + "Value", [], self.pad(self.num(v)))])
        elif t in ("ASCCDL", "ColorCorrection"):
            sop = []
            for k in ("slope", "offset", "power"):
                if k in s:
                    v = s[k]
                    sop.append(self.element(k.capitalize(), [], self.pad(self.sep_plain().join(map(self.num, v)))))
            if self.s["order"]:
                self.r.shuffle(sop)
            names = ["SOPNode", "SatNode"]
            if self.s["case"]:
                names = [self.r.choice(["SOPNode", "SopNode", "SOPNODE", "sopnode"]),
                         self.r.choice(["SatNode", "SATNode", "satnode"])]
            if sop or not omit:
                kids.append([self.element(names[0], [], self.gap() + self.gap().join(sop) + self.gap())])
            if "sat" in s:
                sat = self.element("Saturation", [], self.pad(self.num(s["sat"])))
                kids.append([self.element(names[1], [], self.gap() + sat + self.gap())])
        elif t == "Gamma":
            ps = []
            for g, o, c in s["params"]:
                a = [("gamma", self.num(g))]
                if not (omit and o == 0.0):
                    a.append(("offset", self.num(o)))
                if c is not None:
                    a.append(("channel", c))
                ps.append(self.element("GammaParams", a, ""))
            kids.append(ps)
        elif t == "Log":
            ps = []
            for p in s["params"]:
                a = []
                for k, v, d in zip(("gamma", "refWhite", "refBlack", "highlight", "shadow"), p,
                                   (0.6, 685.0, 95.0, 1.0, 0.0)):
                    if not (omit and v == d):
                        a.append((k, self.num(v)))
                if p[5] is not None:
                    a.append(("channel", p[5]))
                ps.append(self.element("LogParams", a, ""))
            kids.append(ps)
        elif t == "ExposureContrast":
            if s.get("ecp") is not None or not omit:
                a = []
                for k, v, d in zip(("exposure", "contrast", "pivot"), s.get("ecp") or [0.0, 1.0, 1.0], (0.0, 1.0, 1.0)):
                    if not (omit and v == d):
                        a.append((k, self.num(v)))
                kids.append([self.element("ECParams", a, "")])
        elif t in ("LUT1D", "LUT3D", "Matrix"):
            if s.get("imaps"):
                kids.append([self.element("IndexMap", [("dim", str(len(m[0])))], self.pad(self.sep_plain().join(
                    "%s@%s" % (self.num(a), self.num(b)) for a, b in zip(m[0], m[1])))) for m in s["imaps"]])
            if t == "LUT1D":
                dims = [len(tables.values(s["vals"])) // s["ch"], s["ch"]]
            elif t == "LUT3D":
                dims = list(s["dims"]) + [3]
            else:
                dims = s["dims"]
            kids.append([self.array(s, dims)])
        elif t == "Group":
            kids.append([self.node(k) for k in s["nodes"]])
        if self.yes("unknown_elems", 0.4):
            kids.append([self.unknown()])
        return self.element(t if t != "ASCCDL" or self.s["dash"] else "ASC_CDL", attrs, self.merge(kids))

    def merge(self, kids):
        kids = [k for k in kids if k]
        out = self.gap()
        while kids:
            i = self.r.randrange(len(kids)) if self.s["order"] else 0
            out += kids[i].pop(0) + self.gap()
            kids = [k for k in kids if k]
        return out

    def document(self, spec):
        attrs = [(k, "%s" % v) for k, v in spec.get("attrs", [])]
        if self.s["ns"] == "default":
            attrs.append(("xmlns", "urn:NATAS:AMPAS:LUT:v2.0"))
        elif self.s["ns"] == "prefix":
            attrs.append(("xmlns:clf", "http://www.example.org/clf"))
        if self.s["unknown_attrs"]:
            attrs += [("xmlns:ext", "http://www.example.org/ext"), ("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"),
                      ("xsi:schemaLocation", "urn:x clf.xsd")]
        elems = []
        for e in spec.get("elems", []):
            if e[0] == "Info":
                sub = []
                if e[1]:
                    sub.append(self.element("AppRelease", [], self.text(e[1])))
                if e[2]:
                    sub.append(self.element("Copyright", [], self.text(e[2])))
                sub += [self.element(k, [], self.text(x)) for k, x in (e[3] if len(e) > 3 else [])]
                if self.yes("unknown_elems", 0.5):
                    sub.append(self.unknown())
                elems.append(self.element("Info", [], self.merge([sub])))
            else:
                elems.append(self.element(e[0], [], self.text(e[1])))
        groups = [elems, [self.node(n) for n in spec.get("nodes", [])]]
        if self.s["unknown_elems"]:
            groups.append([self.unknown() for _ in range(self.r.randint(1, 2))])
        body = self.element("ProcessList", attrs, self.merge(groups))
        enc = self.s["enc"]
        decl = {"utf-8": "UTF-8", "utf-8-sig": "UTF-8", "utf-16": "UTF-16", "iso-8859-1": "ISO-8859-1",
                "us-ascii": "US-ASCII", "windows-1252": "windows-1252"}[enc]
        head = '<?xml version="1.0" encoding="%s"?>\n' % decl if self.s["decl"] or enc not in ("utf-8", "utf-8-sig") else ""
        if self.s["comments"]:
            head += self.r.choice(["", "<!-- made by a test -->\n", "<?style sheet?>\n", "<!DOCTYPE ProcessList>\n"])
        doc = head + body + (self.gap() if self.s["comments"] else "\n")
        if self.s["crlf"]:
            doc = doc.replace("\n", "\r\n")
        return doc.encode(enc, "xmlcharrefreplace")


def foreign(spec, style, seed=0):
    """The bytes of a CLF document with this content in some other program's layout."""
    return _Writer(style, seed).document(spec)
