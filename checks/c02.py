"""C02: delay counts and delay-resolved sums"""
import numpy as np
from vh import ref, gen
from cddm import core

PROP = "C02"
RULE = ("random times (regular, gaps, unsorted, negative, repeated, non-overlapping, scalar lengths) and integer-valued data; every count/sum function, "
        "direct and FFT, two-sided range and time inversion; non-trivial when a delay beyond zero holds a pair; distinct by (function, time kind, n class, complex, inversion, ndim, axis, dtype)")
ASSUMPTIONS = ["FFT sums are compared within 1e-11 of the total, and with times distinct per camera; direct sums and counts exactly"]
FLOORS = {"quick": {"count": 500, "direct-sum": 600, "fft-sum": 200, "conservation": 200},
          "thorough": {"count": 5000, "direct-sum": 6000, "fft-sum": 2000, "conservation": 2000}}


def two_times(rng, N, distinct):
    t1, kind = gen.times(rng, N, distinct=distinct)
    t2, k2 = gen.times(rng, N, distinct=distinct)
    r = rng.random()
    if r < 0.2:
        t2 = t1.copy()
    elif r < 0.3:
        t2 = t1 + int(rng.integers(-4, 5))
    elif r < 0.37:
        t2 = t2 + int(rng.choice([-1, 1])) * int(rng.integers(200, 3000))
    return t1, t2, kind


def full_cross(t1, t2):
    return 1 + max(int(t2.max() - t1.min()), int(t1.max() - t2.min()))


def pick_n(rng, full, large=False):
    r = rng.random()
    if large:
        if r < 0.3 and full < 5000:
            return None, full, "default"
        n = int(rng.integers(1, min(full, 3000) + 40))
        return n, n, "large"
    if r < 0.25 and full <= 400:
        return None, full, "default"
    if r < 0.65:
        n = int(rng.integers(1, min(max(full, 1), 60) + 1))
        return n, n, "less"
    n = max(1, min(full, 150)) + int(rng.integers(0, 12))
    return n, n, "beyond"


def large_counts(ctx, rng, i):
    """long recordings"""
    counts(ctx, rng, i, True)


def large_sums(ctx, rng, i):
    sums(ctx, rng, i, True)


def counts(ctx, rng, i, large=False):
    N = int(rng.choice([1, 2, 3, 6, 10, 17, 30, 64])) if not large else int(rng.integers(65, 1200))
    form = rng.choice(["array", "array", "list", "scalar"])
    auto = bool(rng.random() < 0.5)
    t1, t2, kind = two_times(rng, N, False)
    M = N
    if not auto and rng.random() < 0.4:      # counts are defined for cameras with different numbers of frames too
        M = int(rng.integers(1, 20 if not large else 1200))
        t2, _ = gen.times(rng, M)
    if form == "scalar":
        t1, t2, kind = np.arange(N), np.arange(M), "scalar"
    c1, c2 = gen.clock(rng, t1, t2)
    a1, a2 = (N, M) if form == "scalar" else ((t1.tolist(), t2.tolist()) if form == "list" else (c1, c2))
    if auto:
        full = 1 + int(t1.max() - t1.min())
        n, nn, nk = pick_n(rng, full, large)
        ctx.info = dict(fn="auto_count", t=t1, n=n)
        got = core.auto_count(a1, n)
        want = ref.count(ref.pairs_auto(t1, nn))
        ctx.equal(got, want, "count")
        if nn >= full:
            ctx.check(int(got.sum()) == N * (N + 1) // 2, "conservation", lambda: "auto total %d, %d frames" % (got.sum(), N))
    else:
        full = max(1, full_cross(t1, t2))
        n, nn, nk = pick_n(rng, full, large)
        cplx = bool(rng.random() < 0.5)
        same = rng.random() < 0.2
        if same:
            a2, t2 = None, t1
            full = full_cross(t1, t1)
            nn = full if n is None else nn
        ctx.info = dict(fn="cross_count", t1=t1, t2=t2, n=n, complex=cplx)
        got = core.cross_count(a1, a2, n, complex=cplx)
        want = ref.count(ref.pairs_cross(t1, t2, nn, cplx))
        ctx.equal(got, want, "count")
        if nn >= full:
            ctx.check(int(got.sum()) == len(t1) * len(t2), "conservation", lambda: "cross total %d" % got.sum())
        if cplx:
            # the two-sided count folds onto the one-sided count
            one = core.cross_count(a1, a2, nn)
            fold = got[:nn].copy()
            if nn > 1:
                fold[1:] += got[:-nn:-1]
            ctx.equal(fold, one, "fold")
    ctx.check(np.asarray(got).dtype.kind == "i", "count-dtype")
    if (want[1:] > 0).any():
        ctx.mark("count", auto, kind, form, nk, N == M)


def huge_counts(ctx, rng, i):
    """very long recordings: tens of millions of pairs"""
    N, M = (int(v) for v in rng.integers(4000, 9000, 2))
    n = int(rng.choice([50, 1000, 30000]))
    t1 = np.cumsum(rng.integers(1, 4, N))
    t2 = np.cumsum(rng.integers(1, 4, M)) + int(rng.integers(-100, 100))
    if rng.random() < 0.3:
        t1 = t1[::-1].copy()
    ctx.info = dict(frames=(N, M), n=n)

    def histogram(a, b):
        """two-sided numbers of pairs with delays -n+1..n-1"""
        h = np.zeros(2 * n - 1, np.int64)
        for x in a:
            d = b - x
            d = d[np.abs(d) < n]
            h += np.bincount(d + n - 1, minlength=2 * n - 1)
        return h

    def fold(h):
        out = h[n - 1:].copy()
        out[1:] += h[n - 2::-1] if n > 1 else 0
        return out
    h = histogram(t1, t2)
    ctx.equal(core.cross_count(t1, t2, n), fold(h), "count")
    ctx.equal(core.cross_count(t1, t2, n, complex=True), np.concatenate((h[n - 1:], h[:n - 1])), "count")
    a = fold(histogram(t1, t1))
    a[1:] //= 2
    ctx.equal(core.auto_count(t1, n), a, "count")
    ctx.mark("huge", n)


def sums(ctx, rng, i, large=False):
    fft = bool(rng.random() < 0.35)
    auto = bool(rng.random() < 0.4)
    N = int(rng.choice([1, 2, 3, 5, 8, 11, 16, 24])) if not large else int(rng.integers(25, 700))
    shape = gen.frame_shape(rng, 12 if not large else 4 if N > 100 else 300)
    t1, t2, kind = two_times(rng, N, fft)
    regular = (not fft) and rng.random() < 0.35
    if regular:
        t1 = t2 = np.arange(N)
        kind = "regular"
    a, dk = gen.values(rng, (N,) + shape)
    axis = int(rng.integers(0, len(shape) + 1))
    f = gen.layout(rng, gen.put_axis(a, axis))
    if rng.random() < 0.3:
        axis -= f.ndim
    T1, T2 = (None, None) if regular else gen.clock(rng, t1, t2)
    if auto:
        full = 1 + int(t1.max() - t1.min())
        n, nn, nk = pick_n(rng, full, large)
        kw = dict(axis=axis, n=n)
        if not fft:
            kw["align"] = bool(rng.random() < 0.5)
        fn = core.auto_sum_fft if fft else core.auto_sum
        ctx.info = dict(fn=fn.__name__, t=T1, shape=f.shape, dtype=dk, **kw)
        got = fn(f, T1, **kw)
        p = ref.pairs_auto(t1, nn)
        want = (ref.psum(a, p, 0) + ref.psum(a, p, 1)) / 2
        if kind in ("repeats",):
            # at zero delay repeated times form pairs of different frames: only the half-sum is defined
            got, want = got[..., 1:], want[..., 1:]
        cplx = inv = None
    else:
        full = max(1, full_cross(t1, t2))
        n, nn, nk = pick_n(rng, full, large)
        cplx, inv = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        kw = dict(axis=axis, n=n, complex=cplx, time_inversion=inv)
        if not fft:
            kw["align"] = bool(rng.random() < 0.5)
        fn = core.cross_sum_fft if fft else core.cross_sum
        ctx.info = dict(fn=fn.__name__, t=T1, t_other=T2, shape=f.shape, dtype=dk, **kw)
        got = fn(f, T1, T2, **kw)
        # f is measured at t; with time inversion f is the second camera: delay = t - t_other
        p = ref.pairs_cross(t2, t1, nn, cplx) if inv else ref.pairs_cross(t1, t2, nn, cplx)
        want = ref.psum(a, p, 1 if inv else 0)
    if fft:
        ctx.close(got, want, "fft-sum", rtol=1e-11, scale=max(1.0, float(np.abs(a.astype(complex)).sum())))
    else:
        ctx.equal(got, want, "direct-sum")
    ctx.check(got.dtype == (np.complex128 if a.dtype.kind == "c" else np.float64), "sum-dtype", lambda: "%s from %s" % (got.dtype, a.dtype))
    c = ref.count(p)
    if (c[1:] > 0).any():
        ctx.mark(fn.__name__, kind, nk, cplx, inv, f.ndim, axis, dk)


def ones(ctx, rng, i):
    """the sum of ones is the count (consistency between the two families)"""
    N = int(rng.integers(1, 30))
    t1, t2, kind = two_times(rng, N, True)
    n = int(rng.integers(1, 40))
    for cplx in (False, True):
        c = core.cross_count(t1, t2, n, complex=cplx)
        for inv in (False, True):
            ctx.info = dict(t1=t1, t2=t2, n=n, complex=cplx, inv=inv)
            s = core.cross_sum(np.ones(N), t1 if not inv else t2, t2 if not inv else t1, n=n, complex=cplx, time_inversion=inv)
            ctx.equal(s, c.astype(float), "sum-of-ones")
    ctx.mark("ones", kind, n > N)


STREAMS = {"counts": dict(fn=counts, quick=1600, thorough=24000), "sums": dict(fn=sums, quick=1600, thorough=24000),
           "ones": dict(fn=ones, quick=160, thorough=2400),
           "huge-counts": dict(fn=huge_counts, quick=8, thorough=200),
           "large-counts": dict(fn=large_counts, quick=60, thorough=3000), "large-sums": dict(fn=large_sums, quick=60, thorough=3000)}
