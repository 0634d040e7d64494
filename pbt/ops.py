"""Operations that a script can perform on the code under test (runs on PyPy)."""
import base64
import contextlib
import gzip
import io
import json
import math
import os
import signal
import struct
import sys

import numpy as np

import fakes
import tables

C = None          # aces.clf
TOP = {}          # lazily imported modules


def load():
    global C
    import aces.clf
    C = aces.clf
    import aces.lutFormats
    TOP["lutFormats"] = aces.lutFormats
    import clf          # the copy that lutFormats and the converters use
    TOP["clf"] = clf
    import aces.convertCLFtoLUT, aces.convertLUTtoCLF
    import aces.convertOCIOtoCLF, aces.filterImageWithCLF
    TOP["clf2lut"] = aces.convertCLFtoLUT
    TOP["lut2clf"] = aces.convertLUTtoCLF
    TOP["ocio"] = aces.convertOCIOtoCLF
    TOP["filter"] = aces.filterImageWithCLF


def _clfs():
    return [C, TOP["clf"]]


# --------------------------------------------------------------------------
# Building objects through the public API

def build_node(s, clf=None):
    clf = clf or C
    t = s["t"]
    a = (s["in"], s["out"], s.get("id", ""), s.get("name", ""))
    if t == "Range":
        kw = {}
        if s.get("style"):
            kw["style"] = s["style"]
        if s.get("defaultRange"):
            kw["defaultRange"] = True
        n = clf.Range(*a, **kw)
        lim = s.get("lim", {})
        if "minIn" in lim:
            n.setMinInValue(lim["minIn"])
        if "maxIn" in lim:
            n.setMaxInValue(lim["maxIn"])
        if "minOut" in lim:
            n.setMinOutValue(lim["minOut"])
        if "maxOut" in lim:
            n.setMaxOutValue(lim["maxOut"])
    elif t == "Matrix":
        n = clf.Matrix(*a)
        n.setMatrix(list(s["dims"]), tables.values(s["vals"]), s.get("enc", "string"))
    elif t == "LUT1D":
        kw = {"interpolation": s.get("interp", "linear")}
        if s.get("rawHalfs"):
            kw["rawHalfs"] = True
        if s.get("halfDomain"):
            kw["halfDomain"] = True
        n = clf.LUT1D(*a, **kw)
        if s.get("imaps"):
            n.setIndexMaps(*[[list(m[0]), list(m[1])] for m in s["imaps"]])
        n.setArray(s["ch"], tables.values(s["vals"]), s.get("enc", "string"))
    elif t == "LUT3D":
        n = clf.LUT3D(*a, interpolation=s.get("interp", "trilinear"))
        if s.get("imaps"):
            n.setIndexMaps(*[[list(m[0]), list(m[1])] for m in s["imaps"]])
        n.setArray(list(s["dims"]), tables.values(s["vals"]), s.get("enc", "string"))
    elif t in ("ASCCDL", "ColorCorrection"):
        if t == "ASCCDL":
            n = clf.ASCCDL(*a, style=s["style"])
        else:
            n = clf.ColorCorrection(*a)
        if "slope" in s:
            n.setSlope(*s["slope"])
        if "offset" in s:
            n.setOffset(*s["offset"])
        if "power" in s:
            n.setPower(*s["power"])
        if "sat" in s:
            n.setSaturation(s["sat"])
    elif t == "Gamma":
        n = clf.Gamma(*a, style=s["style"])
        for g, o, c in s["params"]:
            n.setGamma(g, o, c)
    elif t == "Log":
        n = clf.Log(*a, style=s["style"])
        for p in s["params"]:
            n.setLogParams(*p)
    elif t == "ExposureContrast":
        n = clf.ExposureContrast(*a, style=s["style"])
        if s.get("ecp") is not None:
            n.setExposureContrastPivot(*s["ecp"])
    elif t == "User":
        n = USER[s["cls"]](*a)
        n.setParams(s["scale"], s["bias"])
    elif t == "Group":
        n = clf.Group(*a)
        for k in s["nodes"]:
            n.addProcess(build_node(k, clf))
    elif t == "Reference":
        here = [s.get(k, "").replace("{work}", os.getcwd()) for k in ("path", "basePath")]
        n = clf.Reference(*a, path=here[0], basePath=here[1], alias=s.get("alias", ""))
    else:
        raise ValueError(t)
    for d in s.get("descs", []):
        n.addElement(clf.Description(d))
    for k, text in s.get("notes", []):
        n.addElement(USER[k](text))
    for d in s.get("dyn", []):
        n.setDynamicParam(d)
    if s.get("bypass") is not None:
        n.setAttribute("bypass", s["bypass"])
    for k, v in s.get("extra", []):
        n.setAttribute(k, v)
    return n


def build_list(s, clf=None):
    clf = clf or C
    pl = clf.ProcessList()
    setters = {"name": pl.setName, "id": pl.setID, "inverseOf": pl.setInverseOf,
               "compCLFversion": pl.setCompCLFversion}
    for k, v in s.get("attrs", []):
        setters.get(k, lambda x, k=k: pl.setAttribute(k, x))(v)
    for e in s.get("elems", []):
        if e[0] == "Info":
            pl.addElement(clf.Info(e[1], e[2]))
        else:
            pl.addElement((USER.get(e[0]) or getattr(clf, e[0]))(e[1]))
    for n in s.get("nodes", []):
        pl.addProcess(build_node(n, clf))
    return pl


# --------------------------------------------------------------------------
# Nodes and elements of a user

USER = {}
BUILT_IN = {}


def user_class(c):
    """Define a class that derives from ProcessNode or Comment; it registers itself."""
    import xml.etree.ElementTree as etree
    name, tag = str(c["name"]), str(c["tag"])
    if c["kind"] == "note":
        def init(self, comment=""):
            C.ProcessList.getClass("Comment").__init__(self, comment, tag)
        base = C.ProcessList.getClass("Comment")
        USER[name] = type(base)(name, (base,), {"__init__": init, "_made": c["mark"]})
        return
    base = C.ProcessNode

    def init(self, inBitDepth="16f", outBitDepth="16f", id="", name=""):
        base.__init__(self, tag, inBitDepth, outBitDepth, id, name)
        self._scale, self._bias, self._seen = 1.0, 0.0, 0

    def setParams(self, scale, bias):
        self._scale, self._bias = scale, bias

    def write(self, tree):
        node = base.write(self, tree)
        e = etree.SubElement(node, "User-Params")
        e.set("scale", str(self._scale))
        e.text = str(self._bias)
        return node

    def readChild(self, child):
        if self.getElementType(child.tag) == "UserParams":
            self._scale, self._bias = float(child.get("scale")), float(child.text)
            self._seen += 100
        return None

    def readInitialize(self):
        self._seen += 1

    def process(self, values, stride=0, verbose=False):
        n = stride or len(values)
        out = np.array(values, dtype=np.float32)
        for p in range(len(values) // n):
            for i in range(p * n, p * n + 3):
                v = C.bitDepthToNormalized(float(values[i]), self.getInBitDepth())
                out[i] = C.normalizedToBitDepth(v * self._scale + self._bias, self.getOutBitDepth())
        return out

    def printInfoChild(self):
        print("user's own lines: %r %r" % (self._scale, self._bias))
    body = {"__init__": init, "setParams": setParams, "write": write, "readChild": readChild,
            "printInfoChild": printInfoChild, "_made": c["mark"]}
    if c.get("init", True):
        body["readInitialize"] = readInitialize
    if c["process"]:
        body["process"] = process
    USER[name] = type(base)(name, (base,), body)


# --------------------------------------------------------------------------
# Values

def floats(v):
    return [float(x) for x in v]


def make_input(vals, kind):
    if kind == "f32":
        return np.array(vals, dtype=np.float32)
    if kind == "f64":
        return np.array(vals, dtype=np.float64)
    if kind == "f16":
        return np.array(vals, dtype=np.float16)
    if kind == "ints":
        return [int(v) for v in vals]
    if kind == "iarr":
        return np.array(vals, dtype=np.int64)
    if kind == "tuple":
        return tuple(vals)
    return list(vals)


def tree_json(e):
    tag = e.tag
    return [tag, sorted([k, v] for k, v in e.attrib.items()), e.text, [tree_json(c) for c in e]]


def _plain(x):
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, np.generic):
        return float(x)
    return str(x)


@contextlib.contextmanager
def pools():
    """End the process pools that the code under test leaves behind."""
    import multiprocessing.pool as mp
    made, init = [], mp.Pool.__init__

    def record(self, *a, **k):
        made.append(self)
        init(self, *a, **k)

    def stop(*a):
        raise RuntimeError("no end after 100 s")
    mp.Pool.__init__ = record
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(100)
    try:
        yield
    finally:
        signal.alarm(0)
        mp.Pool.__init__ = init
        for p in made:
            p.terminate()
            p.join()


class Env(object):
    def __init__(self, work):
        self.h = {}
        self.work = work

    def path(self, p):
        """Paths of a script are relative to its scratch directory."""
        if os.path.isabs(p) or ".." in p.split("/"):
            raise RuntimeError("script path outside scratch directory: %r" % p)
        return os.path.join(self.work, p)

    # ---- lists and nodes
    def op_new(self, h, spec, which="aces"):
        self.h[h] = build_list(spec, C if which == "aces" else TOP["clf"])

    def op_newnode(self, h, spec):
        self.h[h] = build_node(spec)

    def op_addnode(self, h, spec):
        self.h[h].addProcess(build_node(spec))

    def op_share(self, h, g, i):
        """Append process i of list g to list h."""
        ps = self.h[g].getProcesses()
        if ps:
            self.h[h].addProcess(ps[i % len(ps)])

    def op_setattr(self, h, k, v):
        self.h[h].setAttribute(k, v)

    def op_nodesetattr(self, h, i, k, v):
        ps = self.h[h].getProcesses()
        if ps:
            ps[i % len(ps)].setAttribute(k, v)

    def op_nodecall(self, h, i, method, *args):
        ps = self.h[h].getProcesses()
        if ps:
            return _plain(getattr(ps[i % len(ps)], method)(*args))

    def op_sharedargs(self, specs, kind):
        """Build nodes whose table arguments are one and the same object, use them, and
        say whether that object still has its value."""
        arr = {}

        def shared(key, v):
            k = json.dumps([key, v])
            if k not in arr:
                w = tables.values(v)
                obj = make_input(w, kind) if key == "vals" else (tuple(w) if kind == "tuple" else list(w))
                arr[k] = [obj, floats(obj)]
            return arr[k][0]
        out = []
        for which in range(2):
            for s in specs:
                clf = C
                a = (s["in"], s["out"], "i", "n")
                if s["t"] == "Matrix":
                    n = clf.Matrix(*a)
                    n.setMatrix(shared("dims", s["dims"]), shared("vals", s["vals"]), s.get("enc", "string"))
                else:
                    n = clf.LUT1D(*a) if s["t"] == "LUT1D" else clf.LUT3D(*a)
                    if s.get("imaps"):
                        n.setIndexMaps(*[[shared("in", m[0]), shared("out", m[1])] for m in s["imaps"]])
                    if s["t"] == "LUT1D":
                        n.setArray(s["ch"], shared("vals", s["vals"]), s.get("enc", "string"))
                    else:
                        n.setArray(shared("dims", s["dims"]), shared("vals", s["vals"]), s.get("enc", "string"))
                pl = C.ProcessList()
                pl.addProcess(n)
                vals = floats(pl.process([0.1, 0.5, 0.9]))
                pl.writeFile(self.path("args.clf"))
                old, sys.stdout = sys.stdout, io.StringIO()
                try:
                    pl.printInfo()
                    info = sys.stdout.getvalue()
                finally:
                    sys.stdout = old
                with open(self.path("args.clf"), "rb") as f:
                    out.append([vals, floats(pl.process([0.1, 0.5, 0.9])), f.read().decode("utf-8"), info])
        bad = [k for k, (obj, want) in arr.items() if floats(obj) != want]
        return {"modified": bad, "out": out}

    def op_call(self, h, method, *args):
        r = getattr(self.h[h], method)(*args)
        return _plain(r)

    def at(self, h, path):
        obj = self.h[h]
        for i in path:
            obj = obj.getProcesses()[i]
        return obj

    def op_edit(self, h, path, method, *args):
        """Call a setter of a list or of a node inside it."""
        obj = self.at(h, path)
        if method == "addElement":
            obj.addElement(getattr(C, args[0])(*args[1:]))
        elif method == "addProcess":
            obj.addProcess(build_node(args[0]))
        elif method in ("setArray", "setMatrix"):
            obj_args = list(args)
            obj_args[1] = tables.values(args[1])
            getattr(obj, method)(*obj_args)
        else:
            getattr(obj, method)(*args)

    def op_peek(self, h, queries):
        """Results of getters: [path, method, arguments] each."""
        out = []
        for path, method, args in queries:
            obj = self.at(h, path)
            if method == "getProcess":
                p = obj.getProcess(*args)
                out.append(None if p is None else [i for i, q in enumerate(obj.getProcesses()) if q is p][0])
            elif method == "len":
                out.append([len(obj), len([n for n in obj]),
                            all(obj[i] is n and obj[i - len(obj)] is n for i, n in enumerate(obj.getProcesses()))])
            else:
                r = getattr(obj, method)(*args)
                if method == "getIndexMapValues":
                    r = [floats(v) for v in r]
                elif method == "getLUTDimensions":
                    r = [int(x) for x in r]
                elif method == "getLUTValues":
                    r = floats(r)
                out.append(r if isinstance(r, list) else _plain(r))
        return out

    def op_at(self, h, path, vals, stride=0):
        """Process with a node inside a list."""
        return floats(self.at(h, path).process(np.array(vals, dtype=np.float32), stride))

    def op_getproc(self, h, name):
        p = self.h[h].getProcess(name)
        if p is None:
            return None
        return [k for k, q in enumerate(self.h[h].getProcesses()) if q is p][0]

    def op_attrs(self, h, names):
        return [_plain(self.h[h].getAttribute(n)) for n in names]

    def op_nodes(self, h):
        pl = self.h[h]
        return {"len": len(pl), "iter": [n.getNodeType() for n in pl],
                "types": [pl[i].getNodeType() for i in range(len(pl))],
                "names": [_plain(n.getAttribute("name")) for n in pl.getProcesses()],
                "bypass": [_plain(n.getAttribute("bypass")) for n in pl.getProcesses()],
                "depths": [[n.getInBitDepth(), n.getOutBitDepth()] for n in pl.getProcesses()]}

    def op_lut(self, h, i):
        n = self.h[h].getProcesses()[i]
        return {"dims": [int(x) for x in n.getLUTDimensions()], "vals": floats(n.getLUTValues())}

    def op_imap(self, h, i, c):
        n = self.h[h].getProcesses()[i]
        v = n.getIndexMapValues(c)
        return {"dim": int(n.getIndexMapDimensions(c)), "in": floats(v[0]), "out": floats(v[1])}

    # ---- files
    def op_write(self, h, path, opts=None):
        o = opts or {}
        r = self.h[h].writeFile(self.path(path), writeSelfContained=o.get("selfContained", False),
                                writeGzip=o.get("gzip", False))
        return _plain(r)

    def op_read(self, h, path, strict=False, how="ctor"):
        if how == "ctor":
            self.h[h] = C.ProcessList(self.path(path), strict)
        else:
            pl = C.ProcessList()
            self.h[h] = pl
            pl.readFile(self.path(path), strict)

    def op_tree(self, h, selfContained=False):
        return tree_json(self.h[h].write(writeSelfContained=selfContained).getroot())

    def op_put(self, path, text, enc="utf-8"):
        p = self.path(path)
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        data = base64.b64decode(text) if enc == "b64" else text.encode(enc)
        with open(p, "wb") as f:
            f.write(data)

    def op_get(self, path):
        p = self.path(path)
        if not os.path.exists(p):
            return None
        with open(p, "rb") as f:
            data = f.read()
        try:
            return {"text": data.decode("utf-8")}
        except UnicodeDecodeError:
            return {"b64": base64.b64encode(data).decode("ascii")}

    def op_getb64(self, path):
        p = self.path(path)
        if not os.path.exists(p):
            return None
        with open(p, "rb") as f:
            data = f.read().replace(os.getcwd().encode(), b"{work}")
        return base64.b64encode(data).decode("ascii")

    def op_gunzip(self, path):
        with gzip.open(self.path(path), "rb") as f:
            return f.read().decode("utf-8")

    def op_gzipfile(self, src, dst):
        with open(self.path(src), "rb") as f:
            data = f.read()
        with open(self.path(dst), "wb") as f:
            f.write(gzip.compress(data))

    def op_truncate(self, src, dst, n):
        with open(self.path(src), "rb") as f:
            data = f.read()
        with open(self.path(dst), "wb") as f:
            f.write(data[:n])
        return len(data)

    def op_remove(self, path):
        os.remove(self.path(path))

    def op_damage(self, src, dst, at, xor):
        with open(self.path(src), "rb") as f:
            data = bytearray(f.read())
        data[at] ^= xor
        with open(self.path(dst), "wb") as f:
            f.write(bytes(data))

    def op_mkdir(self, path):
        os.makedirs(self.path(path), exist_ok=True)

    def op_limit(self, size, step):
        """Another operation, while no file can grow beyond a size (as if the disk was full)."""
        import resource
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
        try:
            return getattr(self, "op_" + step[0])(*step[1:])
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)

    def op_threads(self, jobs, rounds=1):
        """Process with several threads at once: [[handle, values, stride], ...] -> their results."""
        import threading
        out = [[] for _ in jobs]
        start = threading.Barrier(len(jobs))

        def work(k):
            h, vals, stride = jobs[k]
            start.wait()
            for _ in range(rounds):
                try:
                    out[k].append(floats(self.h[h].process(list(vals), stride)))
                except Exception as e:
                    out[k].append("%s: %s" % (type(e).__name__, e))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        return out

    def op_ls(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.work)
                      for d, _, fs in os.walk(self.work) for f in fs)

    # ---- processing
    def op_process(self, h, vals, stride=0, opts=None):
        o = opts or {}
        inp = make_input(vals, o.get("kind", "list"))
        before = floats(inp)
        args = {}
        if o.get("verbose"):
            args["verbose"] = True
        if o.get("stride") != "default":
            args["stride"] = stride
        if o.get("node") is not None:
            inp = make_input(vals, "f32")
            r = self.h[h].getProcesses()[o["node"]].process(inp, **args)
            return floats(r)
        r = self.h[h].process(inp, **args)
        after = floats(inp)
        same = struct.pack("<%dd" % len(before), *before) == struct.pack("<%dd" % len(after), *after)
        out = floats(r)
        if not same:
            raise AssertionError("caller's input buffer was modified")
        return out

    def op_nodeproc(self, spec, vals, stride=0, opts=None):
        """Build one node and process a float32 array with it."""
        n = build_node(spec)
        o = opts or {}
        args = {}
        if o.get("stride") != "default":
            args["stride"] = stride
        return floats(n.process(np.array(vals, dtype=np.float32), **args))

    def op_steps(self, h, vals, stride=0):
        """The value after each node, each node run on a private copy."""
        cur = np.array(vals, dtype=np.float32)
        out = []
        for n in self.h[h].getProcesses():
            cur = np.array(n.process(cur.copy(), stride), dtype=np.float32)
            out.append(floats(cur))
        return out

    def op_info(self, h, node=None):
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            (self.h[h] if node is None else self.h[h].getProcesses()[node]).printInfo()
            return sys.stdout.getvalue()
        finally:
            sys.stdout = old

    def op_feat(self, value):
        for m in _clfs():
            m.setFeatureCompatibility(value)

    def op_getfeat(self):
        return C.getFeatureCompatibility()

    # ---- arrays and bit patterns
    def op_hexfns(self, name, arg):
        import aces.clf.Common as common
        f = getattr(common, name)
        if name.startswith("uint16"):
            return float(f(arg))
        r = f(arg)
        if isinstance(r, bytes):
            r = r.decode("ascii")
        if isinstance(r, np.integer):
            r = int(r)
        return _plain(r)

    # ---- sampled constructors
    def op_sampled(self, h, kind, args):
        poly = args.get("poly")

        def fn(*xs):
            if not poly:
                return (FUNCS if len(xs) == 1 else FUNCS3)[args["f"]](*xs)
            return poly_at(poly, xs[0]) if len(xs) == 1 else [poly3_at(p, *xs) for p in poly]
        kw = {}
        if "in" in args:
            kw = {"inBitDepth": args["in"], "outBitDepth": args["out"]}
        if kind == "1d":
            n = C.simpleSampledLUT(args["id"], args["name"], args["ch"], args["res"], fn, **kw)
        elif kind == "half":
            if args.get("raw"):
                kw["rawHalfs"] = True
            n = C.simpleSampledLUTHalfDomain(args["id"], args["name"], args["ch"], fn, **kw)
        else:
            res = list(args["res"])
            n = C.simple3DLUT(args["id"], args["name"], res, fn, **kw)
            if res != list(args["res"]):
                raise AssertionError("caller's resolution list was modified: %r" % (res,))
        pl = C.ProcessList()
        pl.addProcess(n)
        self.h[h] = pl
        return {"id": _plain(n.getAttribute("id")), "name": _plain(n.getAttribute("name")),
                "in": n.getInBitDepth(), "out": n.getOutBitDepth(), "type": n.getNodeType()}

    # ---- LUT formats
    def op_reglist(self):
        """Formats and capabilities that the registry advertises."""
        out = []
        for f in TOP["lutFormats"].Registry.getFormats():
            for e in f.extensions():
                out.append([e, bool(f.canRead(e)), bool(f.canWrite1D(e)), bool(f.canWrite3D(e)),
                            bool(f.canWrite1D3D1D(e))])
        return sorted(out)

    def op_regread(self, h, path, kw=None):
        self.h[h] = TOP["lutFormats"].Registry.read(self.path(path), **(kw or {}))
        return self.h[h] is not None

    def op_regnodes(self, h, path, kw=None):
        """Read as nodes; the nodes' types, or None, or the name of whatever else is returned."""
        ns = TOP["lutFormats"].Registry.read(self.path(path), returnProcessNodes=True, **(kw or {}))
        if ns is None:
            return None
        if not isinstance(ns, (list, tuple)):
            return type(ns).__name__
        pl = TOP["clf"].ProcessList()
        for n in ns:
            pl.addProcess(n)
        self.h[h] = pl
        return [n.getNodeType() for n in ns]

    def op_regwrite(self, h, path, kw=None):
        kw = dict(kw or {})
        TOP["lutFormats"].Registry.write(self.h[h], self.path(path), **kw)
        return os.path.exists(self.path(path))

    def op_arrayobj(self, dims, vals, calls):
        """A stand-alone array and calls of its lookups, the positions as single precision."""
        a = C.Array.Array(list(dims), tables.values(vals)) if hasattr(C.Array, "Array") else \
            C.Array(list(dims), tables.values(vals))
        out = []
        for m, pos, args in calls:
            pos = [(np.float32 if isinstance(p, float) else int)(p) for p in pos]
            r = getattr(a, m)(pos[0] if len(pos) == 1 else pos, *args)
            out.append(floats(r) if hasattr(r, "__len__") else [float(r)])
        return out

    def op_imapobj(self, dim, values, cached, steps):
        """A stand-alone index map: ["process", values] and setter calls; the results of the process steps."""
        m = getattr(C.IndexMap, "IndexMap", C.IndexMap)(dim, values, useCachedProcess=cached)
        out = []
        for s in steps:
            if s[0] == "process":
                out.append([float(m.process(v)) for v in s[1]])
            else:
                getattr(m, s[0])(*s[1:])
        return out

    def op_fmtcall(self, cls, method, args, kw=None):
        """Call a writer of a format class; {"file": name} and {"table": dims, values} arguments are expanded."""
        def arg(a):
            if isinstance(a, dict) and "file" in a:
                return self.path(a["file"])
            if isinstance(a, dict):
                v, (r, g, b) = a["vals"], a["dims"]
                return [[[[v[((i * g + j) * b + k) * 3 + c] for c in range(3)] for k in range(b)]
                         for j in range(g)] for i in range(r)]
            return a
        r = getattr(getattr(TOP["lutFormats"], cls), method)(*[arg(a) for a in args],
                                                             **{k: arg(v) for k, v in (kw or {}).items()})
        return bool(r)

    def op_sample(self, which, h, args):
        """Call one of the samplers; nested tables come back flat."""
        from aces.lutFormats import Sampling

        def flat(v):
            if v is None:
                return None
            if isinstance(v, np.ndarray) and v.ndim == 1 or not len(v) or np.isscalar(v[0]):
                return floats(v)
            return [x for e in v for x in flat(e)]
        r = getattr(Sampling, which)(self.h[h], *args)
        if which == "sample1D3D1D":
            return [float(x) if np.isscalar(x) else flat(x) for x in r]
        return flat(r)

    def op_userclass(self, c):
        user_class(c)

    def op_forget(self, names):
        """As in a program that does not have these classes."""
        for n in names:
            C.ProcessList.serializableClasses.pop(n, None)

    def op_users(self, h):
        """The nodes and notes of user classes, in order."""
        def about(e):
            if not hasattr(e, "_made"):
                return []
            if hasattr(e, "_scale"):
                return [[type(e).__name__, e._made, e.getNodeType(), e.getInBitDepth(), e.getOutBitDepth(),
                         _plain(e.getAttribute("name")), e._scale, e._bias, e._seen]]
            return [[type(e).__name__, e._made, e._comment or ""]]

        def walk(x):
            out = []
            for e in getattr(x, "_elements", []):
                out += about(e)
            for n in x.getProcesses() if hasattr(x, "getProcesses") else []:
                out += about(n) + walk(n)
            return out
        return walk(self.h[h])

    def op_formats(self, classes, steps):
        """LUT formats of a user: classes derived from LutFormat, and calls of the registry and of the classes."""
        Reg, Base = TOP["lutFormats"].Registry, sys.modules["aces.lutFormats.LutFormat"].LutFormat
        log, made = [], {}

        def plain(a):
            if isinstance(a, str) and a.startswith(self.work + "/"):
                return a[len(self.work) + 1:]
            if isinstance(a, (str, bool, type(None))):
                return a
            if isinstance(a, (list, tuple, np.ndarray)):
                return [plain(x) for x in a]
            for k, h in self.h.items():
                if h is a:
                    return {"list": k}
            return float(a)

        def method(name, m, what):
            def call(cls, path, *a, **k):
                log.append([name, m, plain(path), plain(a), {x: plain(y) for x, y in k.items()}])
                if what == "ok":
                    with open(path, "w") as f:
                        f.write(name)
                return {"ok": True, "no": False, "none": None}[what]

            def writecall(cls, pl, path, *a, **k):
                log.append([name, m, plain(path), [plain(pl)] + plain(a), {x: plain(y) for x, y in k.items()}])
                if what == "ok":
                    with open(path, "w") as f:
                        f.write(name)
                return {"ok": True, "no": False, "none": None}[what]

            def read(cls, path, *a, **k):
                log.append([name, m, plain(path), plain(a), {x: plain(y) for x, y in k.items()}])
                if what == "none":
                    return None
                return [] if what == "no" else [build_node(s, TOP["clf"]) for s in call.nodes]
            return classmethod({"write": writecall, "read": read}.get(m, call)), call

        def define(c):
            body = {"formatType": c["name"], "formats": [(d, e, list(caps)) for d, e, caps in c["formats"]]}
            for m, what in c["methods"].items():
                body[m], fn = method(c["name"], m, what)
                fn.nodes = c.get("nodes", [])
            made[c["name"]] = type(Base)(str(c["name"]), (Base,), body)

        saved = dict(Reg.lutFormats)
        out = []
        try:
            for c in classes:
                define(c)
            for s in steps:
                del log[:]
                if s[0] == "define":
                    define(s[1])
                    out.append(None)
                elif s[0] == "write":
                    Reg.write(self.h[s[1]], self.path(s[2]), **s[3])
                    got = None
                    if os.path.exists(self.path(s[2])):
                        with open(self.path(s[2])) as f:
                            got = f.read()[:40]
                    out.append([[list(e) for e in log], got])
                elif s[0] == "read":
                    r = Reg.read(self.path(s[1]), **s[2])
                    kind = None if r is None else "nodes" if isinstance(r, list) else type(r).__name__
                    out.append([[list(e) for e in log], kind,
                                None if r is None else [[n.getNodeType(), n.getAttribute("name")] for n in r]])
                elif s[0] == "class":
                    r = getattr(made[s[1]], s[2])(*([self.path(s[3])] if s[2] == "read" else []))
                    out.append([[list(e) for e in log], plain(r) if not isinstance(r, list) else len(r)])
                elif s[0] == "query":
                    cls = made[s[1]]
                    known = [k for k, v in Reg.lutFormats.items() if v is cls]
                    row = [known, list(cls.descriptions()), list(cls.extensions()), sorted(cls.capabilities())]
                    for e in s[2]:
                        row.append([sorted(cls.capabilities(e)), bool(cls.canRead(e)), bool(cls.canWrite1D(e)),
                                    bool(cls.canWrite3D(e)), bool(cls.canWrite1D3D1D(e))]
                                   + [bool(cls.isCapable(k, e)) for k in ("read", "write1D", "write3D", "write1D3D1D")])
                    row.append(cls in list(Reg.getFormats()))
                    out.append(row)
            return out
        finally:
            Reg.lutFormats.clear()
            Reg.lutFormats.update(saved)

    def op_cli(self, which, argv):
        """Run the main() of a converter with a command line."""
        mod = TOP[which]
        old_argv, old_out = sys.argv, sys.stdout
        sys.argv = [which] + [str(a) for a in argv]
        sys.stdout = io.StringIO()
        try:
            try:
                with pools():
                    mod.main()
            except SystemExit as e:
                raise RuntimeError("SystemExit %s" % e)
            return sys.stdout.getvalue()[-2000:]
        finally:
            sys.argv, sys.stdout = old_argv, old_out

    def op_script(self, name, argv):
        """Run a bin/ script through its main()."""
        import importlib.machinery
        import py2compat
        path = os.path.join(os.path.dirname(py2compat.ROOT), "python", "bin", name)
        with open(path, "rb") as f:
            code = py2compat.translate(f.read(), path)
        g = {"__name__": "__main__", "__file__": path}
        old_argv, old_out, old_path = sys.argv, sys.stdout, list(sys.path)
        sys.argv = [name] + [str(a) for a in argv]
        sys.stdout = io.StringIO()
        try:
            try:
                with pools():
                    exec(code, g)
            except SystemExit as e:
                raise RuntimeError("SystemExit %s" % e)
            return sys.stdout.getvalue()
        finally:
            sys.argv, sys.stdout, sys.path[:] = old_argv, old_out, old_path

    # ---- images
    def op_image(self, path, img):
        fakes.IMAGES[path] = img

    def op_getimage(self, path):
        return fakes.IMAGES.get(path)

    def op_filter(self, inp, out, clfpath, kw=None):
        clf = TOP["clf"]
        pl = clf.ProcessList(self.path(clfpath))
        with pools():
            TOP["filter"].filterImageWithCLF(inp, out, pl, **(kw or {}))

    # ---- OCIO
    def op_ocioconfig(self, path, cfg):
        fakes.CONFIGS[os.path.abspath(self.path(path))] = cfg

    def op_ocio(self, cfg, src, dst, clfpath, im, hd):
        TOP["ocio"].convertOCIOtoCLF(self.path(cfg), src, dst, self.path(clfpath), im, hd)
        return os.path.exists(self.path(clfpath))


def _f_square(x):
    return x * x


FUNCS = {
    "id": lambda x: x,
    "square": _f_square,
    "affine": lambda x: 0.25 + 0.5 * x,
    "neg": lambda x: 1.0 - x,
    "cube": lambda x: x * x * x - 0.5 * x,
    "const": lambda x: 0.375,
    "exp2": lambda x: 2.0 ** x if x < 128 else x if x != x else float("inf"),
    "log2": lambda x: (math.log(x, 2) if 0 < x < float("inf") else -float("inf") if x == 0
                       else x if x == float("inf") else float("nan")),
    "clip": lambda x: min(1.0, max(0.0, float(x))),
}

def poly_at(k, x):
    return k[0] + x * (k[1] + x * (k[2] + x * k[3]))


def poly3_at(k, x, y, z):
    return k[0] + k[1] * x + k[2] * y + k[3] * z + k[4] * x * y * z


FUNCS3 = {
    "id": lambda x, y, z: [x, y, z],
    "rot": lambda x, y, z: [y, z, x],
    "mix": lambda x, y, z: [0.5 * x + 0.25 * y, y * z, 1.0 - x + 2.0 * z],
    "index": lambda x, y, z: [x + 10 * y + 100 * z, x * y, y - z],
}


CPU_LIMIT = 60.0     # seconds of processor time for one operation (the slowest take about two)


class OutOfTime(BaseException):
    pass


def _out_of_time(*args):
    raise OutOfTime("no result after %d seconds of processor time" % CPU_LIMIT)


def run_script(script, work):
    import py2compat  # noqa: F401
    for m in _clfs():
        m.setFeatureCompatibility(m.featureSets["All"])
    fakes.IMAGES.clear()
    fakes.CONFIGS.clear()
    if not BUILT_IN:
        BUILT_IN.update(C.ProcessList.serializableClasses)
    C.ProcessList.serializableClasses.clear()
    C.ProcessList.serializableClasses.update(BUILT_IN)
    USER.clear()
    env = Env(work)
    results = []
    for step in script:
        try:
            signal.signal(signal.SIGPROF, _out_of_time)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 5)
            try:
                r = getattr(env, "op_" + step[0])(*step[1:])
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            results.append({"ok": r})
        except (Exception, SystemExit, OutOfTime) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:])
            results.append({"exc": type(e).__name__, "msg": str(e)[:300], "where": where,
                            "mro": [c.__name__ for c in type(e).__mro__]})
    return results
