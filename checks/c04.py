"""C04: output arrays are accumulated into, exactly"""
import numpy as np
from vh import ref, gen
from cddm import core

PROP = "C04"
RULE = ("every function with an output array is called with random prior content (and repeatedly) and must return that array holding prior + fresh result; recordings are "
        "split in random pieces whose accumulated result must equal the sum of the pieces; distinct by (function, ndim, axis, times, complex, align, n class)")
ASSUMPTIONS = ["prior content is integer-valued, so direct accumulation is compared exactly, FFT within 1e-11 of the total",
               "output arrays have the documented dtypes (FDTYPE / CDTYPE, integer counts) and the shape of a fresh result"]
FLOORS = {"quick": {"accumulate": 900, "pieces": 150, "tuple-accumulate": 300},
          "thorough": {"accumulate": 9000, "pieces": 1500, "tuple-accumulate": 3000}}
FN = ["cross_correlate", "auto_correlate", "cross_correlate_fft", "auto_correlate_fft", "cross_difference", "auto_difference",
      "cross_count", "auto_count", "cross_sum", "auto_sum", "cross_sum_fft", "auto_sum_fft"]


def same_memory(a, b):
    return np.shares_memory(a, b) and a.shape == b.shape


def prior(rng, x):
    if x.dtype.kind == "c":
        return (rng.integers(-99, 99, x.shape) + 1j * rng.integers(-99, 99, x.shape)).astype(x.dtype)
    return rng.integers(-99, 99, x.shape).astype(x.dtype)


def large(ctx, rng, i):
    """long recordings and large frames"""
    single(ctx, rng, i, True)


def single(ctx, rng, i, large=False):
    name = FN[i % len(FN)]
    fn = getattr(core, name)
    fft = name.endswith("fft")
    N = int(rng.choice([1, 2, 5, 8, 13, 20])) if not large else int(rng.integers(21, 600))
    shape = gen.frame_shape(rng, 12 if not large else 4 if N > 100 else 200)
    a1, dk = gen.values(rng, (N,) + shape, kind=str(rng.choice(["c16", "f8"])) if "sum" in name else None)
    a2, _ = gen.values(rng, (N,) + shape)
    axis = int(rng.integers(0, len(shape) + 1))
    f1, f2 = gen.layout(rng, gen.put_axis(a1, axis)), gen.layout(rng, gen.put_axis(a2, axis))
    auto = name.startswith("auto")
    need_t = name in ("cross_sum_fft", "auto_sum_fft") or "count" in name
    t1 = t2 = None
    if need_t or rng.random() < 0.5:
        t1, _ = gen.times(rng, N, distinct=fft or auto)
        t2, _ = gen.times(rng, N, distinct=fft or auto)
    n = int(rng.integers(1, (N if not large else 4 * N) + 6))
    kw = {}
    if name in ("cross_correlate", "cross_correlate_fft", "auto_correlate", "auto_correlate_fft", "cross_count", "cross_sum", "cross_sum_fft"):
        kw["complex"] = bool(rng.random() < 0.5)
    if "count" not in name:
        kw["axis"] = axis
        if not fft:
            kw["align"] = bool(rng.random() < 0.5)
    if name.startswith("cross_sum"):
        kw["time_inversion"] = bool(rng.random() < 0.5)
    c1, c2 = gen.clock(rng, t1, t2)
    if "count" in name:
        args = (c1,) if auto else (c1, c2)
    elif "sum" in name:
        args = (f1, c1) if auto else (f1, c1, c2)
    else:
        args = (f1, c1) if auto else (f1, f2, c1, c2)
    fresh = fn(*args, n=n, **kw)
    out = prior(rng, fresh)
    layout = int(rng.integers(0, 3))
    before = out.copy()
    if layout == 1 and out.ndim > 1:      # a view into a larger result, e.g. one level of a multilevel array
        big = np.zeros((3,) + out.shape, out.dtype)
        big[1] = out
        big[0], big[2] = 7, 7
        out = big[1]
    elif layout == 2 and out.ndim > 1:    # delay axis not last in memory
        m = np.moveaxis(np.ascontiguousarray(np.moveaxis(out, -1, 0)), 0, -1)
        out = m
    ctx.info = dict(fn=name, shape=f1.shape, t1=t1, t2=t2, n=n, layout=layout, **kw)
    reps = int(rng.integers(1, 4))
    for _ in range(reps):
        # the delay range is that of the array, also when n says otherwise
        kk = dict(kw)
        if rng.random() < 0.3:
            kk["n"] = int(rng.integers(1, 40))
        r = fn(*args, aout=out, **kk)
        ctx.check(same_memory(r, out), "returns-out-array", "result is not the given output array")
    want = before + reps * fresh
    if fft:
        s = reps * max(1.0, float(np.abs(a1.astype(complex)).sum()), float(ref.abs2(a1).sum()), float(ref.abs2(a2).sum())) + 200
        ctx.close(out, want, "accumulate", rtol=1e-11, scale=s)
    else:
        ctx.equal(out, want, "accumulate")
    if layout == 1 and out.ndim > 1 and name:
        ctx.check(np.all(big[0] == 7) and np.all(big[2] == 7), "neighbour-untouched", "wrote outside the given array")
    ctx.mark(name, f1.ndim, axis, t1 is None, kw.get("complex"), kw.get("align"), kw.get("time_inversion"), n > N, layout)


def tuples(ctx, rng, i):
    """acorr/ccorr with aout: every piece is accumulated"""
    auto = bool(rng.random() < 0.5)
    method = str(rng.choice(["corr", "fft", "diff"]))
    norm = int(rng.choice([1, 2, 3, 5, 6, 7])) if method != "diff" else (2 if auto else int(rng.choice([2, 6])))
    cplx = bool(rng.random() < 0.4) and method != "diff"
    shape = gen.frame_shape(rng, 10)
    n = int(rng.integers(1, 12))
    axis = int(rng.integers(0, len(shape) + 1))
    aout, total = None, None
    k = int(rng.integers(2, 5))
    ctx.info = dict(auto=auto, method=method, norm=norm, complex=cplx, shape=shape, n=n, axis=axis, pieces=k)
    s = 1.0
    for step in range(k):
        N = int(rng.integers(1, 15))
        a1, _ = gen.values(rng, (N,) + shape, "c16")
        a2, _ = gen.values(rng, (N,) + shape, "c16")
        t1 = t2 = None
        if rng.random() < 0.5:
            t1, _ = gen.times(rng, N, distinct=True)
            t2, _ = gen.times(rng, N, distinct=True)
        r1 = np.arange(N) if t1 is None else t1
        r2 = np.arange(N) if t2 is None else t2
        f1, f2 = gen.put_axis(a1, axis), gen.put_axis(a2, axis)
        kw = dict(norm=norm, method=method, axis=axis, n=n, align=bool(rng.random() < 0.5))
        if method != "diff":
            kw["complex"] = cplx
        if auto:
            res = core.acorr(f1, t1, aout=aout, **kw)
            want = ref.acorr_tuple(a1, r1, n, norm, method, cplx)
        else:
            res = core.ccorr(f1, f2, t1, t2, aout=aout, **kw)
            want = ref.ccorr_tuple(a1, a2, r1, r2, n, norm, method, cplx)
            if method == "diff" and not norm & 4:
                want = want[:2] + (None, None)
        s += float(ref.abs2(a1).sum() + ref.abs2(a2).sum())
        total = want if total is None else tuple(None if w is None else x + w for x, w in zip(total, want))
        if aout is not None:
            for x, y in zip(aout, res):
                ctx.check((x is None) == (y is None), "tuple-pieces")
                if x is not None:
                    ctx.check(same_memory(x, y), "returns-out-array", "accumulated piece is not the given array")
        aout = res
    for g, w in zip(aout, total):
        if w is not None:
            if method == "fft":
                ctx.close(g, w, "tuple-accumulate", rtol=1e-11, scale=s)
            else:
                ctx.equal(g, w, "tuple-accumulate")
    ctx.mark("tuple", auto, method, norm, cplx, len(shape), axis, k)


def pieces(ctx, rng, i):
    """pieces of a recording, in any order: own-piece sums and piece-pair cross sums add up to the whole"""
    N = int(rng.integers(4, 25))
    f = rng.integers(-9, 10, (N, 3)) + 1j * rng.integers(-9, 10, (N, 3))
    g = rng.integers(-9, 10, (N, 3)) + 1j * rng.integers(-9, 10, (N, 3))
    t1, _ = gen.times(rng, N, distinct=True)
    t2, _ = gen.times(rng, N, distinct=True)
    n = int(rng.integers(1, N + 4))
    cuts = [0] + sorted(rng.choice(np.arange(1, N), int(rng.integers(1, min(4, N))), replace=False).tolist()) + [N]
    blocks = [slice(a, b) for a, b in zip(cuts[:-1], cuts[1:])]
    cplx = bool(rng.random() < 0.5)
    ctx.info = dict(N=N, n=n, cuts=cuts, complex=cplx, t1=t1, t2=t2)
    offset = max(t1.max(), t2.max()) - min(t1.min(), t2.min()) + 1
    whole = core.ccorr(f, g, t1, t2, n=n, norm=7, method="corr", complex=cplx)
    acc = None
    # every block of camera 1 with every equally long block of camera 2 needs equal lengths: pad by splitting into single frames when unequal
    units = [slice(k, k + 1) for k in range(N)] if rng.random() < 0.5 or len({b.stop - b.start for b in blocks}) > 1 else blocks
    order = [(a, b) for a in units for b in units]
    for k in rng.permutation(len(order)):
        a, b = order[int(k)]
        acc = core.ccorr(f[a], g[b], t1[a], t2[b], n=n, norm=7, method="corr", complex=cplx, aout=acc)
    for w, x in zip(whole, acc):
        ctx.equal(x, w, "pieces")
    ctx.mark("pieces", len(units), cplx, n > N)


STREAMS = {"single": dict(fn=single, quick=1800, thorough=30000), "large": dict(fn=large, quick=60, thorough=2500), "tuples": dict(fn=tuples, quick=500, thorough=8000),
           "pieces": dict(fn=pieces, quick=60, thorough=800)}
