"""Stand-ins for OpenImageIO and PyOpenColorIO (not installed here).

The OpenImageIO stand-in keeps images in memory: IMAGES[path] = dict.  The
PyOpenColorIO stand-in keeps configurations in memory: CONFIGS[path].
"""
import os
import sys
import types

import numpy as np

IMAGES = {}
CONFIGS = {}


class _Format(object):
    def __init__(self, basetype):
        self.basetype = basetype


class _Attr(object):
    def __init__(self, name, type_, value):
        self.name, self.type, self.value = name, type_, value


class _Spec(object):
    def __init__(self):
        self.format = _Format("float")
        self.width = self.height = self.nchannels = 0
        self.channelnames = ()
        self.extra_attribs = []

    def set_format(self, basetype):
        self.format = _Format(basetype)

    def attribute(self, name, *rest):
        value = rest[-1]
        type_ = rest[0] if len(rest) == 2 else None
        for a in self.extra_attribs:
            if a.name == name:
                a.value = value
                return
        self.extra_attribs.append(_Attr(name, type_, value))


_MAX = {"uint8": 255.0, "uint16": 65535.0}
_DT = {"uint8": np.uint8, "uint16": np.uint16, "half": np.float16, "float": np.float32}


def _convert(data, src, dst):
    if src == dst:
        return data
    norm = np.asarray(data, dtype=np.float64) / _MAX.get(src, 1.0)
    if dst in _MAX:
        return np.clip(np.floor(norm * _MAX[dst] + 0.5), 0, _MAX[dst]).astype(_DT[dst])
    return norm.astype(_DT[dst])


class _ImageInput(object):
    def __init__(self, img):
        self._img = img

    @staticmethod
    def open(path):
        return _ImageInput(IMAGES[path]) if path in IMAGES else None

    def spec(self):
        s = _Spec()
        img = self._img
        s.format = _Format(img["type"])
        s.width, s.height, s.nchannels = img["width"], img["height"], img["channels"]
        s.channelnames = tuple(img["channelnames"])
        s.extra_attribs = [_Attr(n, "t", v) for n, v in img["meta"]]
        return s

    def read_image(self, type_):
        img = self._img
        data = np.array(img["data"], dtype=_DT[img["type"]])
        data = _convert(data, img["type"], type_)
        if type_ == "half":
            # as OpenImageIO >= 1.8 does: the bit patterns, as 16 bit integers
            return np.frombuffer(data.astype(np.float16).tobytes(), dtype=np.uint16).copy()
        return np.array(data, dtype=_DT[type_])

    def close(self):
        pass


class _ImageOutput(object):
    def __init__(self, path):
        self._path = path
        self._spec = None

    @staticmethod
    def create(path):
        return _ImageOutput(path)

    def open(self, path, spec, mode):
        self._spec = spec
        return True

    def write_image(self, fmt, pixels):
        s = self._spec
        t = fmt.basetype
        n = s.width * s.height * s.nchannels
        arr = np.asarray(pixels)
        if len(arr) != n:
            return False
        if t == "half":
            arr = np.frombuffer(arr.astype(np.uint16).tobytes(), dtype=np.float16)
        elif arr.dtype != _DT[t]:
            # what OpenImageIO does with a buffer of another type is not modelled
            arr = arr.astype(_DT[t])
        IMAGES[self._path] = {
            "type": t, "width": s.width, "height": s.height, "channels": s.nchannels,
            "channelnames": list(s.channelnames),
            "meta": [[a.name, a.value] for a in s.extra_attribs],
            "data": [float(x) for x in arr]}
        return True

    def close(self):
        pass


class _Transform(object):
    pass


class GroupTransform(_Transform):
    def __init__(self, children):
        self._c = children

    def getTransforms(self):
        return list(self._c)


class FileTransform(_Transform):
    def __init__(self, src, interpolation, direction):
        self._a = (src, interpolation, direction)

    def getSrc(self):
        return self._a[0]

    def getInterpolation(self):
        return self._a[1]

    def getDirection(self):
        return self._a[2]


class MatrixTransform(_Transform):
    def __init__(self, matrix, offset, direction):
        self._a = (matrix, offset, direction)

    def getMatrix(self):
        return list(self._a[0])

    def getOffset(self):
        return list(self._a[1])

    def getDirection(self):
        return self._a[2]


class LogTransform(_Transform):
    def __init__(self, base, direction):
        self._a = (base, direction)

    def getBase(self):
        return self._a[0]

    def getDirection(self):
        return self._a[1]


class UnknownTransform(_Transform):
    pass


def make_transform(d):
    if d is None:
        return None
    k = d["k"]
    if k == "group":
        return GroupTransform([make_transform(c) for c in d["children"]])
    if k == "file":
        return FileTransform(d["src"], d["interp"], d["dir"])
    if k == "matrix":
        return MatrixTransform(d["matrix"], d["offset"], d["dir"])
    if k == "log":
        return LogTransform(d["base"], d["dir"])
    return UnknownTransform()


class _ColorSpace(object):
    def __init__(self, d):
        self._d = d

    def getTransform(self, direction):
        return make_transform(self._d.get(direction))


class Config(object):
    def __init__(self, d):
        self._d = d

    @staticmethod
    def CreateFromFile(path):
        return Config(CONFIGS[os.path.abspath(path)])

    def getSearchPath(self):
        return self._d["search"]

    def getColorSpace(self, name):
        return _ColorSpace(self._d["spaces"][name])


def install():
    oiio = types.ModuleType("OpenImageIO")
    oiio.UINT8, oiio.UINT16, oiio.HALF, oiio.FLOAT = "uint8", "uint16", "half", "float"
    oiio.VERSION = 10900
    oiio.ImageInput, oiio.ImageOutput, oiio.ImageSpec = _ImageInput, _ImageOutput, _Spec
    oiio.Create = "create"
    sys.modules["OpenImageIO"] = oiio
    ocio = types.ModuleType("PyOpenColorIO")
    for c in (GroupTransform, FileTransform, MatrixTransform, LogTransform, Config):
        setattr(ocio, c.__name__, c)
    ocio.Constants = types.SimpleNamespace(
        COLORSPACE_DIR_TO_REFERENCE="to_reference",
        COLORSPACE_DIR_FROM_REFERENCE="from_reference")
    sys.modules["PyOpenColorIO"] = ocio
