"""C07: streaming correlation equals in-memory correlation"""
import numpy as np
from vh import ref, gen, multi
from cddm import core

PROP = "C07"
RULE = ("frames delivered by instrumented iterators (list, generator, generator reusing one buffer) to iccorr/iacorr with random chunk size, delay count, increasing times, "
        "norm, method, mode, mask, thread divisor, announced count; compared piece by piece with the reference model, every intermediate result observed through a recording viewer; "
        "distinct by (auto, method, norm, mode, complex, times, mask, divisor, number of chunks, source kind)")
ASSUMPTIONS = ["times increase and no pair inside the requested delay range lies outside neighbouring chunks",
               "processed length is chunk*2**k as documented by the printed warning", "direct methods exact on integer data; FFT within 1e-11"]
FLOORS = {"quick": {"final": 700, "intermediate": 700, "pulled": 700, "short-stream": 60},
          "thorough": {"final": 7000, "intermediate": 7000, "pulled": 7000, "short-stream": 600}}


class Recorder:
    def __init__(self):
        self.seen = []

    def set_data(self, data, background=None, variance=None):
        self.seen.append((tuple(None if d is None else np.array(d) for d in data), background, variance))

    def plot(self):
        pass


def make(ctx, rng, large=False):
    auto = bool(rng.random() < 0.45)
    method = str(rng.choice(["corr", "corr", "fft", "diff"]))
    norm = int(rng.choice([1, 2, 3, 5, 6, 7])) if method != "diff" else (2 if auto else int(rng.choice([2, 6])))
    cplx = bool(rng.random() < 0.4) and method != "diff"
    half = int(rng.choice([4, 5, 6, 7, 8, 9, 12])) if not large else int(rng.integers(13, 160))
    k = int(rng.choice([0, 1, 1, 2, 2, 3] if not large else [1, 2, 3, 3, 4]))
    count = half * 2 ** k + (int(rng.integers(0, half * 2 ** k)) if rng.random() < 0.3 else 0)
    n = int(rng.integers(1, half + 1))
    N = multi.streamed_length(count, half)
    mode = str(rng.choice(["full", "full", "full", "chunk"]))
    shape = tuple(int(v) for v in rng.choice([1, 2, 3, 4], int(rng.choice([1, 2, 2]))))
    if large:
        shape = tuple(int(v) for v in rng.integers(1, 3 if half * 2 ** k > 300 else 14, int(rng.choice([1, 2]))))
    t1 = t2 = None
    tk = "none"
    if rng.random() < 0.6:
        for _ in range(20):
            if auto:
                t1, tk = multi.increasing_times(rng, count)
                t2 = t1
            else:
                t1, t2, tk = multi.two_increasing_times(rng, count)
            if not multi.outside_adjacent(t1[:N], t2[:N], n, half):
                break
        else:
            t1 = t2 = None
            tk = "none"
    mask = None
    if rng.random() < 0.25:
        mask = rng.random(shape) < 0.6
        if not mask.any():
            mask.flat[0] = True
    size = int(np.prod(shape)) if mask is None else int(mask.sum())
    td = None
    if rng.random() < 0.3:
        td = int(rng.choice([d for d in range(1, size + 1) if size % d == 0]))
    return auto, method, norm, cplx, half, count, n, N, mode, shape, t1, t2, tk, mask, td


def large(ctx, rng, i):
    """long recordings and large frames"""
    case(ctx, rng, i, True)


def case(ctx, rng, i, large=False):
    auto, method, norm, cplx, half, count, n, N, mode, shape, t1, t2, tk, mask, td = make(ctx, rng, large)
    dk = str(rng.choice(["c16", "c16", "f8", "c8"]))
    extra = int(rng.choice([0, 0, 1, 5]))
    a1, _ = gen.values(rng, (count + extra,) + shape, dk)
    a2 = None if auto else gen.values(rng, (count + extra,) + shape, dk)[0]
    kind = str(rng.choice(["list", "generator", "buffer"]))
    bare = auto and bool(rng.random() < 0.5)
    cls = multi.ListSource if kind == "list" else multi.Source
    src = cls((a1,) if auto else (a1, a2), kind, bare, rng=rng)
    stats = bool(rng.random() < 0.5)
    rec = Recorder() if rng.random() < 0.6 else None
    interval = int(rng.choice([1, 1, 2, 3] if not large else [4, 7, 11]))
    normarg = None if norm == {"diff": 2 if auto else 6}.get(method, 7) and rng.random() < 0.5 else norm
    kw = dict(n=n, norm=normarg, method=method, chunk_size=half, thread_divisor=td, mode=mode, mask=mask, stats=stats,
              complex=cplx, viewer=rec, viewer_interval=interval)
    if not (kind == "list" and extra == 0 and rng.random() < 0.5) and not (t1 is not None and rng.random() < 0.5):
        kw["count"] = count
    ctx.info = dict(auto=auto, frames=count + extra, count=count, chunk=half, n=n, method=method, norm=norm, complex=cplx, mode=mode, shape=shape,
                    times=tk, t1=t1, t2=t2, mask=None if mask is None else mask.tolist(), divisor=td, source=kind, stats=stats, interval=interval)
    c1, c2 = gen.clock(rng, t1, t2)
    if auto:
        out = core.iacorr(src, c1, **kw)
    else:
        out = core.iccorr(src, c1, c2, **kw)
    data = out[0] if stats else out
    ctx.count("final")
    T1 = (np.arange(count) if t1 is None else t1)[:N]
    T2 = (np.arange(count) if t2 is None else t2)[:N]
    g1 = a1[:N]
    g2 = None if auto else a2[:N]
    h = half if mode == "chunk" else None
    want = multi.level_tuple(g1, g2, T1, T2, n, norm, method, cplx, half=h)
    scale = max(1.0, float(ref.abs2(a1).sum()), 0 if auto else float(ref.abs2(a2).sum()))
    multi.compare_tuple(ctx, data, want, "final", mask, exact=method != "fft", scale=scale)
    ctx.check(src.pulled in (N, min(N + 1, count + extra)), "pulled", lambda: "%d frames taken for %d processed" % (src.pulled, N))
    if rec is not None:
        nch = N // half
        ctx.check(len(rec.seen) == len(range(0, nch + 1, interval)), "view-count", lambda: "%d views, %d chunks" % (len(rec.seen), nch))
        for v, (d, bg, var) in zip(range(0, nch + 1, interval), rec.seen):
            m = min((v + 1) * half, N)
            w = multi.level_tuple(g1[:m], None if auto else g2[:m], T1[:m], T2[:m], n, norm, method, cplx, half=h)
            multi.compare_tuple(ctx, d, w, "intermediate", mask, exact=method != "fft", scale=scale)
            ctx.check((bg is not None) == stats, "view-stats")
            ctx.count("intermediate")
    if (want[1][1:] > 0).any():
        ctx.mark(auto, method, norm, mode, cplx, tk, mask is not None, td, N // half, kind, dk)


def against_memory(ctx, rng, i):
    """float data, default chunk size, default n: equal to acorr/ccorr of the processed frames"""
    auto = bool(rng.random() < 0.5)
    N0 = int(rng.integers(20, 700))
    n = int(rng.integers(5, 17))
    f1 = rng.normal(size=(N0, 2, 3)) + 1j * rng.normal(size=(N0, 2, 3))
    f2 = rng.normal(size=(N0, 2, 3)) + 1j * rng.normal(size=(N0, 2, 3))
    cplx = bool(rng.random() < 0.5)
    norm = int(rng.choice([1, 2, 3, 5, 6, 7]))
    nn = None if rng.random() < 0.2 and N0 < 100 else n
    ctx.info = dict(auto=auto, frames=N0, n=nn, norm=norm, complex=cplx)
    kw = dict(n=nn, norm=norm, complex=cplx, count=N0)
    if auto:
        data, bg, var = core.iacorr(((x,) for x in f1), **kw)
    else:
        data, bg, var = core.iccorr(zip(f1, f2), **kw)
    N = int(data[1][0])
    ctx.check(N0 // 2 < N <= N0, "processed-length", lambda: "%d of %d" % (N, N0))
    n = N0 if nn is None else n
    w = core.acorr(f1[:N], n=n, norm=norm, method="corr", complex=cplx) if auto else core.ccorr(f1[:N], f2[:N], n=n, norm=norm, method="corr", complex=cplx)
    for g, x in zip(data, w):
        ctx.check((g is None) == (x is None), "memory-pieces")
        if g is not None:
            ctx.close(g, x, "against-memory", rtol=1e-11, scale=20.0 * N)
    ctx.mark("memory", auto, norm, cplx, nn is None)


def short(ctx, rng, i):
    """a stream that ends early is an error, never a result; wrong sizes are rejected"""
    auto = bool(rng.random() < 0.5)
    half = int(rng.choice([4, 6, 8]))
    k = int(rng.choice([0, 1, 2]))
    count = half * 2 ** k
    have = int(rng.integers(0, count))
    a = rng.integers(-5, 5, (count, 2, 2)) + 0j
    s = multi.Source((a,) if auto else (a, a), "generator", length=have)
    ctx.info = dict(auto=auto, count=count, have=have, chunk=half)
    f = core.iacorr if auto else core.iccorr
    if have:
        ctx.raises(Exception, lambda: f(s, n=4, count=count, chunk_size=half, norm=1), "short-stream", "have %d of %d" % (have, count))
    s = multi.Source((a,) if auto else (a, a), "generator")
    ctx.raises(ValueError, lambda: f(s, n=4, norm=1), "no-count")
    ctx.raises(ValueError, lambda: f(s, n=half + 1, chunk_size=half, count=count, norm=1), "n-over-chunk")
    ctx.raises(ValueError, lambda: f(s, n=4, chunk_size=count + 1, count=count, norm=1), "chunk-over-count")
    t = np.arange(count)
    if auto:
        ctx.raises(ValueError, lambda: f(s, t[:-1], n=4, count=count, chunk_size=half), "short-times")
    else:
        ctx.raises(ValueError, lambda: f(s, t, t[:-1], n=4, chunk_size=half), "times-mismatch")
        ctx.raises(ValueError, lambda: f(s, t, None, n=4, chunk_size=half), "missing-t2")
    ctx.raises(ValueError, lambda: f(s, n=4, count=count, chunk_size=half, mode="foo"), "mode")
    ctx.check(s.pulled == 0, "rejected-before-reading", "frames were taken by rejected calls")
    ctx.mark("short", auto, k, have == 0, have % half == 0)


STREAMS = {"stream": dict(fn=case, quick=1000, thorough=20000), "large": dict(fn=large, quick=40, thorough=2000), "memory": dict(fn=against_memory, quick=80, thorough=800),
           "short": dict(fn=short, quick=100, thorough=1000)}
