"""C08: in-memory multiple-tau equals correlating the repeatedly binned signal"""
import numpy as np
from vh import ref, gen, multi
from cddm import multitau

PROP = "C08"
RULE = ("acorr_multi/ccorr_multi of random integer-valued recordings (mean binning stays exact) over lengths not limited to powers of two, level sizes, level counts, binnings, periods, times, "
        "axes, align, masks, thread divisors, norms, methods; every level compared with the reference correlation of the repeatedly binned frames and squares; random choice decoded from one-hot frames; "
        "distinct by (auto, method, norm, binning, complex, times, axis, ndim, mask, divisor, levels)")
ASSUMPTIONS = ["squared signals are binned like the signals, deeper levels are treated as regularly spaced (as documented)", "direct methods exact; FFT within 1e-11",
               "mask only with time on axis 0"]
FLOORS = {"quick": {"fast:corr": 900, "slow:corr": 700, "choose:decoded": 200, "rejected": 30},
          "thorough": {"fast:corr": 9000, "slow:corr": 7000, "choose:decoded": 2000, "rejected": 30}}


def pick(rng, large=False):
    auto = bool(rng.random() < 0.45)
    method = str(rng.choice(["corr", "corr", "fft", "diff", "default"]))
    mm = "corr" if method == "default" else method
    norm = int(rng.choice([1, 2, 3, 5, 6, 7])) if mm != "diff" else (2 if auto else int(rng.choice([2, 6])))
    cplx = bool(rng.random() < 0.4) and mm != "diff"
    ls = int(rng.choice([5, 6, 7, 8, 9, 12, 16]))
    N = int(rng.choice([ls, ls + 1, 2 * ls - 1, 2 * ls, 4 * ls, 4 * ls + 3, int(rng.integers(ls, 9 * ls)), int(rng.integers(ls, 20 * ls))]))
    if large:
        ls = int(rng.choice([5, 8, 16, 32]))
        N = int(rng.integers(20 * ls, 3000))
    period = int(rng.choice([1, 1, 1, 2, 3]))
    binning = int(rng.integers(0, 2)) if mm != "diff" else 0
    full = 0
    while N // 2 ** (full + 1) >= ls:
        full += 1
    nlevel = None if rng.random() < 0.6 else int(rng.integers(0, full + 1))
    levels = full if nlevel is None else nlevel
    return auto, method, mm, norm, cplx, ls, N, period, binning, nlevel, levels


def frames(rng, auto, N, shape, levels):
    dk = str(rng.choice(["c16", "c16", "f8", "c8", "i8", "u1"]))
    f1, _ = gen.values(rng, (N,) + shape, dk)
    f2 = None if auto else gen.values(rng, (N,) + shape, dk)[0]
    return f1, f2, dk


def times(rng, auto, N, fft):
    if rng.random() < 0.5:
        return None, None, "none"
    if auto:
        t, k = gen.times(rng, N, distinct=True)
        return t, t, k
    t1, k = gen.times(rng, N, distinct=fft)
    t2, _ = gen.times(rng, N, distinct=fft)
    return t1, t2, k


def large(ctx, rng, i):
    """long recordings, many levels"""
    case(ctx, rng, i, True)


def case(ctx, rng, i, large=False):
    auto, method, mm, norm, cplx, ls, N, period, binning, nlevel, levels = pick(rng, large)
    shape = gen.frame_shape(rng, 8 if not large else 2, dims=(0, 1, 1, 2, 2, 3))
    f1, f2, dk = frames(rng, auto, N, shape, levels)
    t1, t2, tk = times(rng, auto, N, mm == "fft")
    axis = int(rng.integers(0, len(shape) + 1)) if rng.random() < 0.5 else 0
    if rng.random() < 0.3:
        axis = axis - (len(shape) + 1)
    mask = td = None
    if axis == 0 and len(shape) > 0 and rng.random() < 0.25:
        mask = rng.random(shape) < 0.6
        if not mask.any():
            mask.flat[0] = True
    if len(shape) > 0 and rng.random() < 0.3:
        size = int(np.prod(shape)) if mask is None else int(mask.sum())
        td = int(rng.choice([d for d in range(1, size + 1) if size % d == 0]))
    align = bool(rng.random() < 0.3)
    default_norm = {"diff": 2 if auto else 6}.get(mm, 7)
    kw = dict(level_size=ls, norm=None if norm == default_norm and rng.random() < 0.5 else norm, align=align, axis=axis, period=period, nlevel=nlevel,
              thread_divisor=td, mask=mask, complex=cplx)
    if method != "default":
        kw["method"] = method
    if not (binning == (0 if mm == "diff" else 1) and rng.random() < 0.5):
        kw["binning"] = binning
    ctx.info = dict(auto=auto, frames=N, shape=shape, dtype=dk, times=tk, t1=t1, t2=t2, kwargs={k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
    g1 = gen.layout(rng, gen.put_axis(f1, axis))
    c1, c2 = gen.clock(rng, t1, t2)
    if auto:
        lin, mul = multitau.acorr_multi(g1, c1, **kw)
    else:
        g2 = gen.layout(rng, gen.put_axis(f2, axis))
        lin, mul = multitau.ccorr_multi(g1, g2, c1, c2, **kw)
    F1 = f1.astype(complex)
    F2 = None if auto else f2.astype(complex)
    fast, slow = multi.multi_reference(F1, F2, t1, t2, period * ls, ls, levels, norm, mm, cplx, binning)
    scale = max(1.0, float(ref.abs2(F1).sum()), 0 if auto else float(ref.abs2(F2).sum()))
    multi.compare_tuple(ctx, lin, fast, "fast", mask, exact=mm != "fft", scale=scale)
    check_slow(ctx, mul, slow, fast, levels, ls, mask, mm, scale)
    ctx.mark(auto, method, norm, binning, cplx, tk, axis, len(shape), mask is not None, td is not None, levels, period, dk)


def check_slow(ctx, mul, slow, fast, levels, ls, mask, mm, scale, label="slow"):
    if levels == 0:
        ctx.check(mul[0].shape[0] == 0 and mul[1].shape[0] == 0, label + ":none", lambda: repr(mul[0].shape))
        return
    want = multi.stack_slow(slow, None, ls, None)
    ctx.check(mul[1].shape[0] == levels, label + ":nlevel", lambda: "%d levels, expected %d" % (mul[1].shape[0], levels))
    multi.compare_tuple(ctx, mul, want, label, mask, exact=mm != "fft", scale=scale)


def decode_levels(tags, levels, N):
    """tags: (levels, N) lag-0 sums of one-hot frames -> selection per level or None"""
    return [np.nonzero(np.round(tags[j]).astype(int))[0] for j in range(levels)]


def valid_selection(ctx, sels, N, tags, label):
    prev = np.arange(N)
    for j, s in enumerate(sels):
        m = len(prev) // 2
        v = tags[j][s]
        ctx.check(len(s) == m, label + ":pairs", lambda: "level %d holds %d frames, expected %d" % (j + 1, len(s), m))
        ctx.check(bool(np.all((s == prev[0:2 * m:2]) | (s == prev[1:2 * m:2]))), label + ":one-of-two", lambda: "level %d: %r out of %r" % (j + 1, s.tolist(), prev.tolist()))
        ctx.check(bool(np.allclose(v, 1)), label + ":once", "a frame is used more than once")
        prev = s
    return sels


def choose(ctx, rng, i):
    """random choice: decode which frames were used from one-hot pixels, then compare everything else with that selection"""
    auto, method, mm, norm, cplx, ls, N, period, binning, nlevel, levels = pick(rng)
    if mm == "fft" and rng.random() < 0.7:
        method = mm = "corr"
    npix = int(rng.integers(1, 4))
    f1, f2, dk = frames(rng, auto, N, (npix,), levels)
    tag = np.eye(N)
    diff = mm == "diff"
    if diff:
        # cross-difference of a one-hot frame with zeros: |f|^2 of the chosen frame at lag 0; zeros with one-hot for camera 2
        if auto:
            return choose_diff_auto(ctx, rng, ls, N, levels)
        F1 = np.concatenate([tag, 0 * tag, tag, f1], axis=1).astype(complex)
        F2 = np.concatenate([0 * tag, tag, tag, f2], axis=1).astype(complex)
    else:
        F1 = np.concatenate([tag, f1], axis=1).astype(complex)
        F2 = None if auto else np.concatenate([tag, f2], axis=1).astype(complex)
    kw = dict(level_size=ls, norm=norm, period=period, nlevel=nlevel, complex=cplx, method=mm, binning=2)
    ctx.info = dict(auto=auto, frames=N, kwargs=kw)
    if auto:
        lin, mul = multitau.acorr_multi(F1, **kw)
    else:
        lin, mul = multitau.ccorr_multi(F1, F2, **kw)
    tags = np.asarray(mul[0])[:, :N, 0].real
    sels = valid_selection(ctx, decode_levels(tags, levels, N), N, tags, "choose")
    if diff:
        ctx.equal(mul[0][:, N:2 * N, 0], tags, "choose:camera-2")
        ctx.check(not np.any(mul[0][:, 2 * N:3 * N, 0]), "choose:same-for-both", "cameras use different frames")
    slow = []
    for s in sels:
        r = np.arange(len(s))
        slow.append(multi.level_tuple(F1[s], None if auto else F2[s], r, r, ls, norm, mm, cplx))
    scale = max(1.0, float(ref.abs2(F1).sum()), 0 if auto else float(ref.abs2(F2).sum()))
    check_slow(ctx, mul, slow, None, levels, ls, None, mm, scale, "choose")
    r = np.arange(N)
    fast = multi.level_tuple(F1, F2, r, r, period * ls, norm, mm, cplx)
    multi.compare_tuple(ctx, lin, fast, "fast", None, exact=mm != "fft", scale=scale)
    ctx.count("choose:decoded")
    if levels:
        pat = "".join("0" if len(s) and s[0] == 0 else "1" for s in sels[:1])
        ctx.mark("choose", auto, method, norm, cplx, levels, pat)


def choose_diff_auto(ctx, rng, ls, N, levels):
    """one-hot frames: the chosen frame differs from its successors, so the lag-1 difference counts it"""
    lin, mul = multitau.acorr_multi(np.eye(N) + 0j, level_size=ls, method="diff", binning=2, nlevel=levels)
    ctx.info = dict(auto=True, frames=N, method="diff", level_size=ls, levels=levels)
    tags = (np.asarray(mul[0])[:, :N, 1] > 0).astype(float)
    ctx.check(not np.any(np.asarray(mul[0])[:, :, 0]), "choose:zero-lag", "difference of a frame with itself")
    valid_selection(ctx, decode_levels(tags, levels, N), N, tags, "choose")
    ctx.count("choose:decoded")
    ctx.mark("choose-diff-auto", levels)


def varies(ctx, rng, i):
    """random choice really chooses: over many calls both members of the first pair are used"""
    N, ls = 32, 8
    seen = set()
    for _ in range(40):
        lin, mul = multitau.acorr_multi(np.eye(N) + 0j, level_size=ls, method="corr", binning=2, norm=1)
        seen.add(tuple(np.nonzero(np.round(mul[0][0, :, 0]))[0][:1].tolist()))
    ctx.info = dict(first=sorted(seen))
    ctx.check(len(seen) == 2, "choose:random", lambda: "always %r" % seen)
    ctx.mark("varies")


def rejected(ctx, rng, i):
    N = int(rng.integers(10, 40))
    f = rng.normal(size=(N, 2, 3)) + 0j
    ctx.info = dict(frames=N)
    ctx.raises(ValueError, lambda: multitau.acorr_multi(f, level_size=8, method="foo"), "rejected", "method")
    ctx.raises(ValueError, lambda: multitau.acorr_multi(f, level_size=8, method="diff", binning=1), "rejected", "mean binning of differences")
    ctx.raises(ValueError, lambda: multitau.ccorr_multi(f, f, level_size=8, binning=int(rng.integers(3, 9))), "rejected", "binning")
    ctx.raises(Exception, lambda: multitau.ccorr_multi(f, f[:-1], level_size=8), "rejected", "lengths")
    ctx.raises(Exception, lambda: multitau.ccorr_multi(f, f, np.arange(N), level_size=8), "rejected", "t2 missing")
    ctx.raises(Exception, lambda: multitau.ccorr_multi(f, f, np.arange(N), np.arange(N - 1), level_size=8), "rejected", "times")
    ctx.mark("rejected")


STREAMS = {"levels": dict(fn=case, quick=1500, thorough=30000), "large": dict(fn=large, quick=40, thorough=2000), "choose": dict(fn=choose, quick=400, thorough=5000),
           "varies": dict(fn=varies, quick=2, thorough=8), "rejected": dict(fn=rejected, quick=8, thorough=40)}
