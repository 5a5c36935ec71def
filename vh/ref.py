"""Executable reference models, written from the definitions in plain numpy (no code shared with cddm).

Time is always the first axis here.
"""
import numpy as np


def _grouped(i, j, d, lo, size):
    """index arrays of the pairs with d == lo, lo + 1, ..."""
    use = (d >= lo) & (d < lo + size)
    i, j, d = i[use], j[use], d[use]
    o = np.argsort(d, kind="stable")
    i, j = i[o], j[o]
    cut = np.searchsorted(d[o], np.arange(lo, lo + size + 1))
    return [(i[a:b], j[a:b]) for a, b in zip(cut[:-1], cut[1:])]


def pairs_cross(t1, t2, n, cplx=False):
    """list over output index of (i, j) index arrays: frame i of camera 1 with frame j of camera 2"""
    t1, t2 = np.asarray(t1, np.int64), np.asarray(t2, np.int64)
    d = (t2[None, :] - t1[:, None]).ravel()
    i, j = (x.ravel() for x in np.indices((len(t1), len(t2))))
    if not cplx:
        return _grouped(i, j, np.abs(d), 0, n)
    two = _grouped(i, j, d, 1 - n, 2 * n - 1)
    return two[n - 1:] + two[:n - 1]


def pairs_auto(t, n):
    """each unordered pair once, (earlier, later)"""
    t = np.asarray(t, np.int64)
    N = len(t)
    i, j = np.nonzero(np.arange(N)[:, None] <= np.arange(N)[None, :])
    d = t[j] - t[i]
    swap = d < 0
    i, j = np.where(swap, j, i), np.where(swap, i, j)
    return _grouped(i, j, np.abs(d), 0, n)


def _stack(vals, shape, dtype):
    out = np.zeros(tuple(shape) + (len(vals),), dtype)
    for k, v in enumerate(vals):
        out[..., k] = v
    return out


def corr(f1, f2, pairs, cplx=False):
    f1, f2 = np.asarray(f1, complex), np.asarray(f2, complex)
    v = [(np.conj(f1[i]) * f2[j]).sum(0) if len(i) else np.zeros(f1.shape[1:], complex) for i, j in pairs]
    out = _stack(v, f1.shape[1:], complex)
    return out if cplx else out.real


def diff(f1, f2, pairs):
    f1, f2 = np.asarray(f1, complex), np.asarray(f2, complex)
    v = []
    for i, j in pairs:
        d = f1[i] - f2[j]
        v.append((d.real ** 2 + d.imag ** 2).sum(0))
    return _stack(v, f1.shape[1:], float)


def count(pairs):
    return np.array([len(i) for i, j in pairs], np.int64)


def psum(f, pairs, which):
    """sum of the first (0) or second (1) member of every pair"""
    f = np.asarray(f)
    f = f.astype(complex) if f.dtype.kind == "c" else f.astype(float)
    return _stack([f[p[which]].sum(0) for p in pairs], f.shape[1:], f.dtype)


def abs2(f):
    f = np.asarray(f)
    return f.real.astype(float) ** 2 + f.imag.astype(float) ** 2


def ccorr_tuple(f1, f2, t1, t2, n, norm, method, cplx=False, f1s=None, f2s=None):
    """what ccorr has to return: correlation, count, [squares], mean1, mean2"""
    p = pairs_cross(t1, t2, n, cplx)
    c = count(p)
    m1 = psum(np.asarray(f1, complex), p, 0) if norm & 4 else None
    m2 = psum(np.asarray(f2, complex), p, 1) if norm & 4 else None
    if method == "diff":
        return diff(f1, f2, p), c, m1, m2
    sq = None
    if norm & 2:
        f1s = abs2(f1) if f1s is None else f1s
        f2s = abs2(f2) if f2s is None else f2s
        sq = psum(f1s, p, 0) + psum(f2s, p, 1)
    return corr(f1, f2, p, cplx), c, sq, m1, m2


def acorr_tuple(f, t, n, norm, method, cplx=False, fs=None):
    p = pairs_auto(t, n)
    c = count(p)
    if method == "diff":
        return diff(f, f, p), c, None, None
    m = None
    if norm & 4:
        g = np.asarray(f, complex)
        m = (psum(g, p, 0) + psum(g, p, 1)) / 2
    sq = None
    if norm & 2:
        fs = abs2(f) if fs is None else fs
        sq = psum(fs, p, 0) + psum(fs, p, 1)
    return corr(f, f, p, cplx), c, sq, m, None


def regular(n):
    return np.arange(n)


def binned(f, binning, choice=None):
    """one level of binning along axis 0. binning: 0 first, 1 mean"""
    N = f.shape[0]
    if binning == 0:
        return f[::2]
    if binning == 1:
        return (f[0:N - 1:2] + f[1:N:2]) / 2
    raise ValueError(binning)


def close_enough(a, b, rtol, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = np.nanmax(np.abs(b)) if b.size else 0
    return bool(np.all(np.abs(a - b) <= rtol * max(s, 1e-300)))


def median3(a):
    """median of three neighbours, end values kept (real or per component)"""
    a = np.asarray(a)
    if np.iscomplexobj(a):
        return median3(a.real) + 1j * median3(a.imag)
    out = a.astype(float).copy()
    out[..., 1:-1] = np.sort(np.stack([a[..., :-2], a[..., 1:-1], a[..., 2:]]), axis=0)[1]
    return out


def conv3(a):
    """[1/4, 1/2, 1/4] kernel, end values kept"""
    a = np.asarray(a)
    out = a.astype(complex if np.iscomplexobj(a) else float).copy()
    out[..., 1:-1] = 0.25 * a[..., :-2] + 0.5 * a[..., 1:-1] + 0.25 * a[..., 2:]
    return out


def denoise(a, n=3):
    for _ in range(n):
        a = conv3(median3(a))
    return a
