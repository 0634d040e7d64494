"""Tables of LUT values described by a small formula (shared by driver and worker)."""
import math
import struct

_cache = {}


def half_to_float(u):
    return struct.unpack("<e", struct.pack("<H", u))[0]


def f32(x):
    """Round to float32 (overflow gives inf)."""
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def f16(x):
    try:
        return struct.unpack("<e", struct.pack("<e", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def _lcg(seed):
    state = (seed * 2862933555777941757 + 3037000493) & 0xFFFFFFFFFFFFFFFF
    while True:
        state = (state * 6364136223846793005 + 1442695040888963407) & 0xFFFFFFFFFFFFFFFF
        yield (state >> 33) / float(1 << 31)


def table(desc):
    """desc: {"kind", "n" entries, "ch" channels, "seed", "scale", "bias"} -> flat list."""
    key = tuple(sorted(desc.items()))
    if key in _cache:
        return _cache[key]
    kind, n, ch = desc["kind"], desc["n"], desc["ch"]
    seed, scale, bias = desc.get("seed", 0), desc.get("scale", 1.0), desc.get("bias", 0.0)
    out = []
    if kind == "rand":
        g = _lcg(seed)
        out = [f32(next(g) * scale + bias) for _ in range(n * ch)]
    elif kind == "ramp":
        for i in range(n):
            for c in range(ch):
                out.append(f32(float(i) / max(1, n - 1) * scale * (1 + c * 0.25) + bias))
    elif kind == "mono":
        g = _lcg(seed)
        acc = [0.0] * ch
        rows = []
        for i in range(n):
            for c in range(ch):
                acc[c] += 0.05 + next(g)
            rows.append(list(acc))
        top = [max(r[c] for r in rows) for c in range(ch)]
        out = [f32(r[c] / top[c] * scale + bias) for r in rows for c in range(ch)]
    elif kind == "halfid":
        # entry u holds a bounded smooth function of the half value u
        for u in range(n):
            h = half_to_float(u)
            for c in range(ch):
                if h != h:
                    v = -1.0 - c
                elif h in (math.inf, -math.inf):
                    v = math.copysign(70000.0 + c, h)
                else:
                    v = h * (0.5 + 0.25 * c) * scale + bias
                out.append(f32(v))
    elif kind == "halfexp":
        # two to the power of the half value, infinite from some value on; minus infinity at zero
        for u in range(n):
            h = half_to_float(u)
            for c in range(ch):
                if h != h:
                    v = 0.5
                elif h == 0.0:
                    v = -math.inf
                else:
                    v = math.inf if h * (1 + c) >= 16.0 * scale else 2.0 ** max(-20.0, h * (1 + c))
                out.append(f32(v))
    else:
        raise ValueError(kind)
    if len(_cache) > 24:
        _cache.clear()
    _cache[key] = out
    return out


def values(v):
    """An explicit list, or the expansion of {"table": desc}."""
    if isinstance(v, dict):
        return list(table(v["table"]))
    return list(v)


def view(v):
    """The same without a copy; not to be changed."""
    return table(v["table"]) if isinstance(v, dict) else v


_top = [None, 0.0]


def largest(vals):
    """The largest finite magnitude of a list (remembered for the last one)."""
    if _top[0] is not vals:
        _top[:] = [vals, max([abs(v) for v in vals if v == v and abs(v) != math.inf] or [0.0])]
    return _top[1]
