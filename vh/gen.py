"""Workload generators"""
import numpy as np


def frame_shape(rng, maxpix=20, dims=(0, 1, 1, 2, 2, 3)):
    nd = int(rng.choice(dims))
    while True:
        s = tuple(int(v) for v in rng.integers(1, 6, nd))
        if np.prod(s, dtype=int) <= maxpix:
            return s


def values(rng, shape, kind=None):
    """integer-valued data (so that sums are exact) of different dtypes"""
    kind = kind or rng.choice(["c16", "c16", "c16", "f8", "c8", "i8", "u1", "big", "sparse"])
    lo, hi = (-9, 10)
    if kind == "big":
        lo, hi = -40000, 40001
    re = rng.integers(lo, hi, shape)
    im = rng.integers(lo, hi, shape)
    if kind == "f8":
        return re.astype(float), kind
    if kind == "i8":
        return re.astype(np.int64), kind
    if kind == "u1":
        return rng.integers(0, 256, shape).astype(np.uint8), kind
    out = re + 1j * im
    if kind == "sparse":
        out = out * (rng.random(shape) < 0.2)
    return (out.astype(np.complex64) if kind == "c8" else out), kind


def layout(rng, a, k=None):
    """the same values in a different memory layout"""
    k = int(rng.integers(0, 5)) if k is None else k
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 3 and a.ndim:
        b = a[::-1].copy()
        return b[::-1]
    if k == 4:
        b = a.copy()
        b.setflags(write=False)
        return b
    return a


def frame_layouts(rng):
    """function that lays a frame out: as it is, all alike, or each differently"""
    k = int(rng.integers(-3, 5))
    if k <= -2:
        return lambda a: a
    if k == -1:
        return lambda a: layout(rng, a)
    return lambda a: layout(rng, a, k)


def times(rng, n, kind=None, distinct=False):
    """integer frame times. kinds: arange, offset, gaps, shuffled, repeats, negative, wide"""
    kinds = ["arange", "offset", "gaps", "gaps", "shuffled", "negative", "wide"]
    if not distinct:
        kinds += ["repeats"]
    kind = kind or rng.choice(kinds)
    if kind == "arange":
        t = np.arange(n)
    elif kind == "offset":
        t = np.arange(n) + int(rng.integers(-20, 50))
    elif kind == "gaps":
        t = np.cumsum(rng.integers(1, 4, n)) - 1
    elif kind == "shuffled":
        t = rng.permutation(np.cumsum(rng.integers(1, 3, n)))
    elif kind == "negative":
        t = np.cumsum(rng.integers(1, 4, n)) - int(rng.integers(1, 30))
    elif kind == "wide":
        t = np.sort(rng.choice(6 * n + 4, n, replace=False))
    else:
        t = np.sort(rng.integers(0, max(1, n), n))
    return t.astype(np.int64), str(kind)


def put_axis(a, axis):
    """time-first array -> time on the given axis"""
    return np.moveaxis(a, 0, axis)


def clock(rng, *ts):
    """the same delays as given in other clocks: shifted by more than 32 bits hold, other integer types, lists"""
    if ts[0] is None:
        return ts
    k = int(rng.integers(0, 8))
    if k == 0:
        off = int(rng.choice([2 ** 31 - 3, 5 * 10 ** 12 + 7, -2 ** 40, 2 ** 32]))
        new = [np.asarray(t, np.int64) + off for t in ts]
    elif k == 1:
        lo, hi = min(int(np.min(t)) for t in ts), max(int(np.max(t)) for t in ts)
        fit = [d for d in ("i1", "u1", "i2", "u2", "i4", "u4", "u8") if np.iinfo(d).min <= lo and hi <= np.iinfo(d).max]
        d = str(rng.choice(fit)) if fit else "i8"
        new = [np.asarray(t).astype(d) for t in ts]
    elif k == 2:
        new = [np.asarray(t).tolist() for t in ts]
    elif k == 3:
        new = [layout(rng, np.asarray(t)) for t in ts]
    else:
        return ts
    return tuple(new[0] if t is ts[0] else x for t, x in zip(ts, new))
