"""C01: correlation and difference sums equal their definition"""
import numpy as np
from vh import ref, gen
from cddm import core

PROP = "C01"
RULE = ("random integer-valued stacks (1..24 frames, 0..3 frame dimensions, several dtypes and memory layouts), any time axis, "
        "regular or arbitrary integer times, delay counts from 1 to beyond the data, align, complex, direct and FFT; a case is non-trivial when at "
        "least one delay beyond zero holds a pair; distinct by (function, ndim, axis, time kind, n class, align, complex, layout contiguity)")
ASSUMPTIONS = ["FFT variants are compared within 1e-9 of the largest value, direct variants exactly (integer-valued data)",
               "FFT variants are exercised with times that are distinct per camera"]
FLOORS = {"quick": {"direct-sum": 900, "fft-sum": 300, "zero-delay-outside-data": 50},
          "thorough": {"direct-sum": 9000, "fft-sum": 3000, "zero-delay-outside-data": 500}}


def default_n(N, t1, t2):
    if t1 is None:
        return N
    return 1 + max(int(t2.max() - t1.min()), int(t1.max() - t2.min()))


def setup_case(rng, distinct, large=False):
    N = int(rng.choice([1, 2, 3, 5, 8, 11, 16, 17, 24])) if not large else int(rng.integers(25, 700))
    shape = gen.frame_shape(rng) if not large else gen.frame_shape(rng, 4) if N > 100 else gen.frame_shape(rng, 300)
    tk = rng.choice(["none", "none", "times"])
    t1 = t2 = None
    kind = "regular"
    if tk == "times":
        t1, kind = gen.times(rng, N, distinct=distinct)
        if rng.random() < 0.3:
            t2 = t1 + int(rng.integers(-3, 4))
        elif rng.random() < 0.2:
            t2 = t1
        else:
            t2, _ = gen.times(rng, N, distinct=distinct)
            if rng.random() < 0.15:
                t2 = t2 + int(rng.choice([-1, 1])) * 5000     # no overlap in the requested range
    return N, shape, t1, t2, kind


def pick_n(rng, full, large=False):
    r = rng.random()
    if large:
        if r < 0.3 and full < 3000:
            return None, "default"
        return int(rng.integers(1, min(full, 2000) + 40)), "large"
    if r < 0.25 and full <= 400:
        return None, "default"
    if r < 0.6:
        return int(rng.integers(1, min(full, 60) + 1)), "less"
    if r < 0.8:
        return min(full, 200), "full"
    return min(full, 100) + int(rng.integers(1, 20)), "beyond"


def large(ctx, rng, i):
    """long recordings and large frames"""
    case(ctx, rng, i, True)


def case(ctx, rng, i, large=False):
    fft = bool(rng.random() < 0.3)
    auto = bool(rng.random() < 0.4)
    op = "corr" if fft or rng.random() < 0.65 else "diff"
    N, shape, t1, t2, kind = setup_case(rng, fft or auto, large)
    cplx = bool(rng.random() < 0.4) and op == "corr"
    if auto:
        t2 = t1
    a1, dk = gen.values(rng, (N,) + shape)
    a2, _ = gen.values(rng, (N,) + shape)
    axis = int(rng.integers(0, len(shape) + 1))
    f1, f2 = gen.layout(rng, gen.put_axis(a1, axis)), gen.layout(rng, gen.put_axis(a2, axis))
    if rng.random() < 0.3:
        f1, f2 = np.ascontiguousarray(f1), np.ascontiguousarray(f2)
    if rng.random() < 0.3:
        axis = axis - f1.ndim      # negative axis
    full = default_n(N, t1, t2)
    n, nk = pick_n(rng, full, large)
    nn = full if n is None else n
    align = bool(rng.random() < 0.5)
    kw = dict(axis=axis, n=n)
    if not fft:
        kw["align"] = align
    if op == "corr":
        kw["complex"] = cplx
    ctx.info = dict(op=op, auto=auto, fft=fft, shape=f1.shape, axis=axis, t1=t1, t2=t2, n=n, align=align, complex=cplx, dtype=str(f1.dtype))
    c1, c2 = gen.clock(rng, t1, t2)
    if auto:
        fn = core.auto_correlate_fft if fft else (core.auto_correlate if op == "corr" else core.auto_difference)
        got = fn(f1, c1, **kw)
        p = ref.pairs_auto(ref.regular(N) if t1 is None else t1, nn)
        want = ref.corr(a1, a1, p, cplx) if op == "corr" else ref.diff(a1, a1, p)
    else:
        fn = core.cross_correlate_fft if fft else (core.cross_correlate if op == "corr" else core.cross_difference)
        got = fn(f1, f2, c1, c2, **kw)
        r = ref.regular(N)
        p = ref.pairs_cross(r if t1 is None else t1, r if t2 is None else t2, nn, cplx)
        want = ref.corr(a1, a2, p, cplx) if op == "corr" else ref.diff(a1, a2, p)
    if fft:
        s = max(1.0, float(np.max(ref.abs2(a1).sum(0))), float(np.max(ref.abs2(a2).sum(0))))
        ctx.close(got, want, "fft-sum", rtol=1e-11, scale=s)
    else:
        ctx.equal(got, want, "direct-sum")
    ctx.check(got.dtype == (np.complex128 if cplx else np.float64), "result-dtype", lambda: str(got.dtype))
    cnt = ref.count(p)
    if nn > 1 and (cnt[1:] == 0).any():
        ctx.count("zero-delay-outside-data", int((cnt[1:] == 0).sum()))
    ctx.count("pairs-summed", int(cnt.sum()))
    if (cnt[1:] > 0).any():
        ctx.mark(fn.__name__, f1.ndim, axis, kind, nk, align and not fft, cplx, bool(f1.flags.c_contiguous))


def reject(ctx, rng, i):
    """inconsistent arguments are rejected, not computed"""
    a = rng.integers(-5, 5, (6, 3)).astype(complex)
    b = rng.integers(-5, 5, (6, 4)).astype(complex)
    for fn in (core.cross_correlate, core.cross_difference, core.cross_correlate_fft):
        ctx.raises(Exception, lambda: fn(a, b), "rejects-shape-mismatch")
        ctx.raises(Exception, lambda: fn(a, a, np.arange(6), None), "rejects-missing-t2")
        ctx.raises(Exception, lambda: fn(a, a, None, np.arange(6)), "rejects-missing-t1")
    # shapes that would broadcast are no recordings of the same scene
    for fn in (core.cross_correlate, core.cross_difference, core.cross_correlate_fft, core.ccorr):
        for x, y in ((a, a[:, :1]), (a[:, :1], a), (a, a[:1]), (a[:1], a), (a, a[:, 0]), (a[:, 0], a), (a[:5], a), (a[None], a)):
            ctx.raises(Exception, lambda: fn(x, y), "rejects-shape-mismatch", "%r and %r" % (x.shape, y.shape))
            if len(x) == len(y) == 6:
                ctx.raises(Exception, lambda: fn(x, y, np.arange(6), np.arange(6) + 1), "rejects-shape-mismatch", "%r and %r" % (x.shape, y.shape))
        ctx.raises(Exception, lambda: fn(np.array(1.), np.array(1.)), "rejects-scalar")
    for fn in (core.auto_correlate, core.auto_difference, core.auto_correlate_fft, core.acorr):
        ctx.raises(Exception, lambda: fn(np.array(1.)), "rejects-scalar")
    ctx.mark("reject", i)


STREAMS = {"sums": dict(fn=case, quick=2400, thorough=40000), "large": dict(fn=large, quick=60, thorough=3000), "reject": dict(fn=reject, quick=2, thorough=2)}
