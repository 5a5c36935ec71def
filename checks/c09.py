"""C09: streaming multiple-tau equals in-memory multiple-tau"""
import numpy as np
from vh import ref, gen, multi
from cddm import multitau

PROP = "C09"
RULE = ("frames delivered by instrumented iterators (list, generator, generator reusing one buffer) to iccorr_multi/iacorr_multi over chunk sizes, level sizes and counts, periods, binnings, times, "
        "modes, norms, methods, masks, thread divisors; every level of the final and of every intermediate result (recording viewer) compared with the reference, and with acorr_multi/ccorr_multi; "
        "random choice decoded from one-hot frames; distinct by (auto, method, norm, binning, mode, complex, times, mask, divisor, chunks, levels, source)")
ASSUMPTIONS = ["times increase and no pair within the fast delays lies outside neighbouring chunks", "processed length is chunk*2**k", "squares are binned like the signals",
               "direct methods exact on integer data; FFT within 1e-11"]
FLOORS = {"quick": {"fast:corr": 700, "slow:corr": 500, "intermediate": 1500, "choose:decoded": 100, "memory": 80},
          "thorough": {"fast:corr": 7000, "slow:corr": 5000, "intermediate": 15000, "choose:decoded": 1000, "memory": 800}}


class Recorder:
    def __init__(self):
        self.seen = []

    def set_data(self, data, background=None, variance=None):
        self.seen.append((tuple(tuple(None if d is None else np.array(d) for d in x) for x in data), background, variance))

    def plot(self):
        pass


def levels_of(N, ls, nlevel):
    full = 0
    while N // 2 ** (full + 1) >= ls:
        full += 1
    return full if nlevel is None else min(nlevel, full)


def pick(rng, large=False):
    auto = bool(rng.random() < 0.45)
    method = str(rng.choice(["corr", "corr", "fft", "diff"]))
    norm = int(rng.choice([1, 2, 3, 5, 6, 7])) if method != "diff" else (2 if auto else int(rng.choice([2, 6])))
    cplx = bool(rng.random() < 0.4) and method != "diff"
    ls = int(rng.choice([1, 2, 4, 5, 6, 8, 9]))
    period = int(rng.choice([1, 1, 1, 2, 3]))
    if large:
        ls = int(rng.choice([2, 4, 8, 16, 32, 64]))
    half = ls * period + int(rng.choice([0, 0, 1, 2, 3, 7, ls]))
    k = int(rng.choice([0, 1, 1, 2, 2, 3, 4] if not large else [4, 5, 6] if half > 60 else [5, 6, 7, 8]))
    if large and half * 2 ** k > 4096:
        k = 4
    count = half * 2 ** k + (int(rng.integers(0, half * 2 ** k)) if rng.random() < 0.3 else 0)
    N = multi.streamed_length(count, half)
    binning = int(rng.integers(0, 2)) if method != "diff" else 0
    nlevel = None if rng.random() < 0.5 else int(rng.integers(0, 8))
    mode = str(rng.choice(["full", "full", "full", "chunk"]))
    return auto, method, norm, cplx, ls, period, half, count, N, binning, nlevel, mode


def pick_times(rng, auto, count, N, n_fast, half):
    if rng.random() < 0.5:
        return None, None, "none"
    for _ in range(20):
        if auto:
            t1, k = multi.increasing_times(rng, count)
            t2 = t1
        else:
            t1, t2, k = multi.two_increasing_times(rng, count)
        if not multi.outside_adjacent(t1[:N], t2[:N], n_fast, half):
            return t1, t2, k
    return None, None, "none"


def slow_reference(f1, f2, n, levels, norm, method, cplx, binning, half=None, done=None):
    """slow levels; done: only that many binned frames of every level (0: nothing yet)"""
    s1 = ref.abs2(f1)
    s2 = None if f2 is None else ref.abs2(f2)
    out = []
    for j, (a1, a2, q1, q2) in enumerate(multi.binned_levels((f1, f2, s1, s2), binning, levels)):
        m = len(a1) if done is None else done[j]
        a1, q1 = a1[:m], q1[:m]
        a2, q2 = (None, None) if f2 is None else (a2[:m], q2[:m])
        r = np.arange(m)
        if m == 0:
            r = np.arange(1)
            z = np.zeros((1,) + f1.shape[1:], complex)
            t = multi.level_tuple(z, None if f2 is None else z, r, r, n, norm, method, cplx)
            t = (t[0], np.zeros_like(t[1])) + t[2:]
            out.append(t)
            continue
        out.append(multi.level_tuple(a1, a2, r, r, n, norm, method, cplx, q1, q2, half=half))
    return out


def check_slow(ctx, mul, slow, levels, mask, exact, scale, label):
    ctx.check(mul[1].shape[0] == levels, label + ":nlevel", lambda: "%d levels, expected %d" % (mul[1].shape[0], levels))
    if levels == 0:
        return
    multi.compare_tuple(ctx, mul, multi.stack_slow(slow, None, None, None), label, mask, exact=exact, scale=scale)


def large(ctx, rng, i):
    """long recordings, many levels"""
    case(ctx, rng, i, True)


def case(ctx, rng, i, large=False):
    auto, method, norm, cplx, ls, period, half, count, N, binning, nlevel, mode = pick(rng, large)
    n_fast = ls * period
    shape = tuple(int(v) for v in rng.choice([1, 2, 3, 4] if not large else [1, 2], int(rng.choice([1, 2, 2]))))
    t1, t2, tk = pick_times(rng, auto, count, N, n_fast, half)
    mask = td = None
    if rng.random() < 0.25:
        mask = rng.random(shape) < 0.6
        if not mask.any():
            mask.flat[0] = True
    size = int(np.prod(shape)) if mask is None else int(mask.sum())
    if rng.random() < 0.3:
        td = int(rng.choice([d for d in range(1, size + 1) if size % d == 0]))
    dk = str(rng.choice(["c16", "c16", "f8", "c8"]))
    extra = int(rng.choice([0, 0, 1, 5]))
    a1, _ = gen.values(rng, (count + extra,) + shape, dk)
    a2 = None if auto else gen.values(rng, (count + extra,) + shape, dk)[0]
    kind = str(rng.choice(["list", "generator", "buffer"]))
    bare = auto and bool(rng.random() < 0.5)
    src = (multi.ListSource if kind == "list" else multi.Source)((a1,) if auto else (a1, a2), kind, bare, rng=rng)
    stats = bool(rng.random() < 0.5)
    rec = Recorder() if rng.random() < 0.6 else None
    interval = int(rng.choice([1, 1, 2, 3])) if not large else N // half // 3 + 2
    default_norm = {"diff": 2 if auto else 6}.get(method, 7)
    kw = dict(level_size=ls, norm=None if norm == default_norm and rng.random() < 0.5 else norm, method=method, period=period, nlevel=nlevel, chunk_size=half,
              thread_divisor=td, mode=mode, mask=mask, stats=stats, complex=cplx, viewer=rec, viewer_interval=interval)
    if not (binning == (0 if method == "diff" else 1) and rng.random() < 0.5):
        kw["binning"] = binning
    if not (kind == "list" and extra == 0 and rng.random() < 0.5) and not (t1 is not None and rng.random() < 0.5):
        kw["count"] = count
    ctx.info = dict(auto=auto, frames=count + extra, shape=shape, dtype=dk, times=tk, t1=t1, t2=t2, source=kind, mask=None if mask is None else mask.tolist(),
                    kwargs={k: v for k, v in kw.items() if k not in ("viewer", "mask")})
    c1, c2 = gen.clock(rng, t1, t2)
    out = multitau.iacorr_multi(src, c1, **kw) if auto else multitau.iccorr_multi(src, c1, c2, **kw)
    lin, mul = out[0] if stats else out
    ctx.check(src.pulled in (N, min(N + 1, count + extra)), "pulled", lambda: "%d frames taken for %d processed" % (src.pulled, N))
    levels = levels_of(N, ls, nlevel)
    T1 = (np.arange(count) if t1 is None else t1)[:N]
    T2 = (np.arange(count) if t2 is None else t2)[:N]
    g1 = a1[:N].astype(complex)
    g2 = None if auto else a2[:N].astype(complex)
    h = half if mode == "chunk" else None
    exact = method != "fft"
    scale = max(1.0, float(ref.abs2(a1).sum()), 0 if auto else float(ref.abs2(a2).sum()))
    fast = multi.level_tuple(g1, g2, T1, T2, n_fast, norm, method, cplx, half=h)
    multi.compare_tuple(ctx, lin, fast, "fast", mask, exact=exact, scale=scale)
    slow = slow_reference(g1, g2, ls, levels, norm, method, cplx, binning, h)
    check_slow(ctx, mul, slow, levels, mask, exact, scale, "slow")
    if rec is not None:
        nch = N // half
        views = range(0, nch + 1, interval)
        ctx.check(len(rec.seen) == len(views), "view-count", lambda: "%d views, %d chunks" % (len(rec.seen), nch))
        for v, (d, bg, var) in zip(views, rec.seen):
            c = min(v + 1, nch)
            m = c * half
            w = multi.level_tuple(g1[:m], None if auto else g2[:m], T1[:m], T2[:m], n_fast, norm, method, cplx, half=h)
            multi.compare_tuple(ctx, d[0], w, "view-fast", mask, exact=exact, scale=scale)
            done = None
            if v < nch:
                # level j has been updated with completed chunks of binned frames only; deeper levels at the end
                done = [(c // 2 ** j) * half for j in range(1, levels + 1)]
            if done is not None:
                # the deepest levels (a single chunk or less) may wait for the end
                live = [j for j in range(1, levels + 1) if N // 2 ** j >= 2 * half]
                d = (d[0], tuple(None if x is None else x[:len(live)] for x in d[1]))
                done = done[:len(live)]
            check_view(ctx, d[1], g1, g2, ls, levels if done is None else len(done), norm, method, cplx, binning, h, done, mask, exact, scale)
            ctx.check((bg is not None) == stats, "view-stats")
            ctx.count("intermediate")
    ctx.mark(auto, method, norm, binning, mode, cplx, tk, mask is not None, td is not None, N // half, levels, kind, dk)


def check_view(ctx, mul, g1, g2, ls, levels, norm, method, cplx, binning, h, done, mask, exact, scale):
    """every level of an intermediate result is the result of a leading part of that level's frames which is at least
    everything in completed chunks (done)"""
    if done is None:
        slow = slow_reference(g1, g2, ls, levels, norm, method, cplx, binning, h)
    else:
        slow = slow_reference(g1, g2, ls, levels, norm, method, cplx, binning, h, done)
    check_slow(ctx, mul, slow, levels, mask, exact, scale, "view-slow")


def against_memory(ctx, rng, i):
    """default chunk size, float data: equal to the in-memory calls on the processed frames"""
    auto = bool(rng.random() < 0.5)
    ls = int(rng.choice([5, 8, 10, 16]))
    N0 = int(rng.integers(ls, 900))
    cplx = bool(rng.random() < 0.5)
    method = str(rng.choice(["corr", "fft", "diff"]))
    norm = int(rng.choice([1, 2, 3, 5, 6, 7])) if method != "diff" else (2 if auto else int(rng.choice([2, 6])))
    cplx = cplx and method != "diff"
    f1 = rng.normal(size=(N0, 2, 3)) + 1j * rng.normal(size=(N0, 2, 3)) + 3
    f2 = rng.normal(size=(N0, 2, 3)) + 1j * rng.normal(size=(N0, 2, 3)) - 2
    kw = dict(norm=norm, method=method, level_size=ls, complex=cplx)
    if method != "diff":
        kw["binning"] = int(rng.integers(0, 2))
    ctx.info = dict(auto=auto, frames=N0, kwargs=kw)
    cs = None
    if auto:
        (lin, mul), bg, var = multitau.iacorr_multi(((x,) for x in f1), count=N0, chunk_size=cs, **kw)
    else:
        (lin, mul), bg, var = multitau.iccorr_multi(zip(f1, f2), count=N0, chunk_size=cs, **kw)
    N = int(lin[1][0])
    ctx.check(N0 // 2 < N <= N0, "processed-length", lambda: "%d of %d" % (N, N0))
    wl, wm = multitau.acorr_multi(f1[:N], **kw) if auto else multitau.ccorr_multi(f1[:N], f2[:N], **kw)
    for nm, got, want in (("lin", lin, wl), ("multi", mul, wm)):
        ctx.check(len(got) == len(want), "memory-pieces")
        for g, w in zip(got, want):
            ctx.check((g is None) == (w is None), "memory-pieces")
            if g is not None:
                ctx.close(g, w, "memory", rtol=1e-11, scale=40.0 * N)
    ctx.mark("memory", auto, norm, method, cplx, kw.get("binning"))


def decode(ctx, tags, levels, N, label):
    prev = np.arange(N)
    out = []
    for j in range(levels):
        s = np.nonzero(np.round(tags[j]).astype(int))[0]
        m = len(prev) // 2
        ctx.check(len(s) == m, label + ":pairs", lambda: "level %d holds %d frames, expected %d" % (j + 1, len(s), m))
        ctx.check(bool(np.all((s == prev[0:2 * m:2]) | (s == prev[1:2 * m:2]))), label + ":one-of-two", lambda: "level %d: %r out of %r" % (j + 1, s.tolist(), prev.tolist()))
        ctx.check(bool(np.allclose(tags[j][s], 1)), label + ":once", "a frame is used more than once")
        prev = s
        out.append(s)
    return out


def choose(ctx, rng, i):
    auto, method, norm, cplx, ls, period, half, count, N, binning, nlevel, mode = pick(rng)
    if method == "diff":
        auto, norm = False, int(rng.choice([2, 6]))
    levels = levels_of(N, ls, nlevel)
    npix = int(rng.integers(1, 4))
    f1, _ = gen.values(rng, (count, npix), "c16")
    f2, _ = gen.values(rng, (count, npix), "c16")
    tag = np.eye(count, N)
    if method == "diff":
        F1 = np.concatenate([tag, 0 * tag, tag, f1], axis=1).astype(complex)
        F2 = np.concatenate([0 * tag, tag, tag, f2], axis=1).astype(complex)
    else:
        F1 = np.concatenate([tag, f1], axis=1).astype(complex)
        F2 = None if auto else np.concatenate([tag, f2], axis=1).astype(complex)
    kw = dict(level_size=ls, norm=norm, method=method, period=period, nlevel=nlevel, chunk_size=half, mode=mode, complex=cplx, binning=2, stats=False, count=count)
    ctx.info = dict(auto=auto, kwargs=kw)
    if auto:
        lin, mul = multitau.iacorr_multi(((x,) for x in F1), **kw)
    else:
        lin, mul = multitau.iccorr_multi(zip(F1, F2), **kw)
    tags = np.asarray(mul[0])[:, :N, 0].real
    sels = decode(ctx, tags, levels, N, "choose")
    if method == "diff":
        ctx.equal(mul[0][:, N:2 * N, 0], tags, "choose:camera-2")
        ctx.check(not np.any(mul[0][:, 2 * N:3 * N, 0]), "choose:same-for-both", "cameras use different frames")
    h = half if mode == "chunk" else None
    slow = []
    for s in sels:
        r = np.arange(len(s))
        slow.append(multi.level_tuple(F1[s], None if auto else F2[s], r, r, ls, norm, method, cplx, half=h))
    scale = max(1.0, float(ref.abs2(F1).sum()), 0 if auto else float(ref.abs2(F2).sum()))
    check_slow(ctx, mul, slow, levels, None, method != "fft", scale, "choose")
    ctx.count("choose:decoded")
    if levels:
        ctx.mark("choose", auto, method, norm, mode, cplx, levels, int(sels[0][0]))


def rejected(ctx, rng, i):
    auto = bool(rng.random() < 0.5)
    ls = 5
    half = int(rng.choice([5, 6, 8]))
    k = int(rng.choice([0, 1, 2]))
    count = half * 2 ** k
    have = int(rng.integers(1, count))
    a = rng.integers(-5, 5, (count, 2, 2)) + 0j
    mk = lambda n=None: multi.Source((a,) if auto else (a, a), "generator", length=n)
    f = multitau.iacorr_multi if auto else multitau.iccorr_multi
    ctx.info = dict(auto=auto, count=count, have=have, chunk=half)
    ctx.raises(Exception, lambda: f(mk(have), level_size=ls, count=count, chunk_size=half), "short-stream", "have %d of %d" % (have, count))
    s = mk()
    ctx.raises(ValueError, lambda: f(s, level_size=ls), "rejected", "no count")
    ctx.raises(ValueError, lambda: f(s, level_size=half + 1, count=count, chunk_size=half), "rejected", "level_size over chunk_size")
    ctx.raises(ValueError, lambda: f(s, level_size=ls, count=count, chunk_size=count + 1), "rejected", "chunk_size over count")
    ctx.raises(ValueError, lambda: f(s, level_size=ls, count=count, chunk_size=half, nlevel=-1), "rejected", "negative nlevel")
    ctx.raises(ValueError, lambda: f(s, level_size=ls, count=count, chunk_size=half, mode="foo"), "rejected", "mode")
    ctx.raises(ValueError, lambda: f(s, level_size=ls, count=count, chunk_size=half, method="diff", binning=1), "rejected", "binning")
    ctx.raises(ValueError, lambda: f(s, level_size=ls, count=count, chunk_size=half, method="foo"), "rejected", "method")
    ctx.check(s.pulled == 0, "rejected-before-reading", "frames were taken by rejected calls")
    ctx.mark("rejected", auto, k)


STREAMS = {"stream": dict(fn=case, quick=1000, thorough=20000), "large": dict(fn=large, quick=40, thorough=1500),
           "memory": dict(fn=against_memory, quick=100, thorough=1000),
           "choose": dict(fn=choose, quick=150, thorough=2000), "rejected": dict(fn=rejected, quick=24, thorough=200)}
