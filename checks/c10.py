"""C10: streaming background and variance equal those of all frames"""
import numpy as np
from vh import ref, gen, multi
from checks.c09 import slow_reference, levels_of
from cddm import core, multitau

PROP = "C10"
RULE = ("drifting (non-stationary) frame streams through iccorr/iacorr/iccorr_multi/iacorr_multi over chunk sizes, masks, divisors, frame sources; background and variance of the final and of every "
        "intermediate result (recording viewer) compared with numpy mean/variance of the frames so far, automatic background with the correlation of explicitly subtracted frames; stats and "
        "subtract_background over axes, layouts, dtypes, out arguments; distinct by (function, chunks, mask, divisor, automatic background, norm, method, source, dtype)")
ASSUMPTIONS = ["rounding of E|x|^2-|E x|^2: 1e-11 of the mean squared signal", "with automatic background the reported statistics are those of the subtracted frames"]
FLOORS = {"quick": {"background": 900, "variance": 900, "autobg:corr": 250, "memory-mean": 150},
          "thorough": {"background": 9000, "variance": 9000, "autobg:corr": 2500, "memory-mean": 1500}}


class Recorder:
    def __init__(self):
        self.seen = []

    def set_data(self, data, background=None, variance=None):
        cp = lambda b: tuple(np.array(x) for x in b) if isinstance(b, tuple) else np.array(b)
        self.seen.append((cp(background), cp(variance)))

    def plot(self):
        pass


def signal(rng, N, shape, kind):
    """frames whose mean and spread change along the recording"""
    base = rng.integers(-20, 21, (N,) + shape) + 1j * rng.integers(-20, 21, (N,) + shape)
    if kind == "drift":
        base = base + (np.arange(N) * int(rng.integers(-5, 6))).reshape((N,) + (1,) * len(shape))
    elif kind == "step":
        base[int(rng.integers(0, N)):] += 100 - 50j
    elif kind == "burst":
        base[int(rng.integers(0, N))] *= 30
    elif kind == "offset":
        base = base + 1000 + 500j
    return base


def compare_stats(ctx, bg, var, stacks, mask, label=""):
    auto = len(stacks) == 1
    if auto:
        ctx.check(isinstance(bg, np.ndarray) and isinstance(var, np.ndarray), "stats-kind", lambda: "%s, %s" % (type(bg), type(var)))
        bg, var = (bg,), (var,)
    else:
        ctx.check(isinstance(bg, tuple) and isinstance(var, tuple) and len(bg) == len(var) == 2, "stats-kind", lambda: "%s, %s" % (type(bg), type(var)))
    for b, v, f in zip(bg, var, stacks):
        m = f.mean(0)
        w = (ref.abs2(f - m)).mean(0)
        s2 = float(ref.abs2(f).mean(0).max()) or 1.0
        ctx.shape(b.shape, m.shape, label + "background")
        ctx.shape(v.shape, m.shape, label + "variance")
        if mask is not None:
            ctx.check(bool(np.isnan(b[~mask]).all() and np.isnan(v[~mask]).all()), "nan-outside-mask")
            b, v, m, w = b[mask], v[mask], m[mask], w[mask]
        ctx.close(b, m, label + "background", rtol=1e-12, scale=s2 ** 0.5)
        ctx.close(v, w, label + "variance", rtol=1e-11, scale=s2)
        ctx.check(not np.iscomplexobj(v), "real-variance")


def large(ctx, rng, i):
    """long recordings and large frames"""
    case(ctx, rng, i, True)


def case(ctx, rng, i, large=False):
    auto = bool(rng.random() < 0.45)
    mt = bool(rng.random() < 0.5)
    autobg = bool(rng.random() < 0.4)
    method = str(rng.choice(["corr", "fft", "diff"]))
    norm = int(rng.choice([1, 2, 3, 5, 6, 7])) if method != "diff" else (2 if auto else int(rng.choice([2, 6])))
    ls = int(rng.choice([4, 5, 6, 8]))
    half = ls + int(rng.choice([0, 0, 1, 2, 3]))
    k = int(rng.choice([0, 1, 2, 3, 4] if not large else [5, 6, 7, 8]))
    count = half * 2 ** k + (int(rng.integers(0, half * 2 ** k)) if rng.random() < 0.3 else 0)
    N = multi.streamed_length(count, half)
    shape = tuple(int(v) for v in rng.choice([1, 2, 3, 4], int(rng.choice([1, 2, 2]))))
    if large:
        if rng.random() < 0.4:
            shape = tuple(int(v) for v in rng.integers(20, 60, 2))
            k = int(rng.choice([1, 2]))
        elif rng.random() < 0.5:
            half, k = ls + int(rng.integers(50, 400)), int(rng.integers(0, 3))
        count = half * 2 ** k
        N = count
    kind = str(rng.choice(["drift", "step", "burst", "offset", "plain"]))
    dk = str(rng.choice(["c16", "c16", "f8", "c8"]))
    a = [signal(rng, count + 2, shape, kind) for _ in range(1 if auto else 2)]
    a = [x.real.copy() if dk == "f8" else x.astype(np.complex64) if dk == "c8" else x for x in a]
    mask = td = None
    if rng.random() < 0.3:
        mask = rng.random(shape) < 0.6
        if not mask.any():
            mask.flat[0] = True
    size = int(np.prod(shape)) if mask is None else int(mask.sum())
    if rng.random() < 0.3:
        td = int(rng.choice([d for d in range(1, size + 1) if size % d == 0]))
    sk = str(rng.choice(["list", "generator", "buffer"]))
    src = (multi.ListSource if sk == "list" else multi.Source)(a, sk, auto and bool(rng.random() < 0.5), rng=rng)
    cplx = bool(rng.random() < 0.3) and method != "diff"
    stats = bool(rng.random() < 0.85)
    rec = Recorder() if stats and rng.random() < 0.5 else None
    kw = dict(norm=norm, method=method, count=count, chunk_size=half, thread_divisor=td, mask=mask, stats=stats, complex=cplx, auto_background=autobg, viewer=rec,
              mode=str(rng.choice(["full", "chunk"])))
    if stats and rng.random() < 0.5:
        del kw["stats"]
    binning = 1 if method != "diff" else 0
    if mt:
        kw["level_size"] = ls
        if rng.random() < 0.5:
            binning = int(rng.integers(0, 2)) if method != "diff" else 0
        kw["binning"] = binning
        nlevel = None if rng.random() < 0.6 else int(rng.integers(0, 4))
        kw["nlevel"] = nlevel
        f = multitau.iacorr_multi if auto else multitau.iccorr_multi
    else:
        kw["n"] = ls
        f = core.iacorr if auto else core.iccorr
    ctx.info = dict(function=f.__name__, frames=count + 2, processed=N, shape=shape, signal=kind, dtype=dk, source=sk,
                    kwargs={k: v for k, v in kw.items() if k not in ("viewer", "mask")}, mask=None if mask is None else mask.tolist())
    out = f(src, **kw)
    g = [x[:N].astype(complex) for x in a]
    if autobg:
        g = [x - x[:half].mean(0) for x in g]
    if not stats:
        ctx.check(isinstance(out, tuple) and len(out) == (2 if mt else 4 if method == "diff" else 5), "no-stats-wanted", lambda: "%d pieces" % len(out))
        data = out
    else:
        ctx.check(isinstance(out, tuple) and len(out) == 3, "stats-returned", lambda: "%d pieces" % len(out))
        data, bg, var = out
        compare_stats(ctx, bg, var, g, mask)
    if rec is not None:
        for v, (b, w) in enumerate(rec.seen):
            m = min((v + 1) * half, N)
            compare_stats(ctx, b, w, [x[:m] for x in g], mask, "view-")
    if autobg:
        h = half if kw["mode"] == "chunk" else None
        T = np.arange(N)
        g1, g2 = g[0], None if auto else g[1]
        want = multi.level_tuple(g1, g2, T, T, ls, norm, method, cplx, half=h)
        scale = sum(float(ref.abs2(x).sum()) for x in g) + 1e-3
        multi.compare_tuple(ctx, data[0] if mt else data, want, "autobg", mask, exact=False, scale=scale * 10)
        if mt:
            levels = levels_of(N, ls, kw["nlevel"])
            if levels:
                slow = slow_reference(g1, g2, ls, levels, norm, method, cplx, binning, h)
                multi.compare_tuple(ctx, data[1], multi.stack_slow(slow, None, None, None), "autobg-slow", mask, exact=False, scale=scale * 10)
    ctx.mark(f.__name__, N // half, mask is not None, td is not None, autobg, norm, method, sk, dk, kind)


def memory(ctx, rng, i):
    shape = gen.frame_shape(rng, 20, dims=(1, 1, 2, 3))
    N = int(rng.integers(1, 20))
    dk = str(rng.choice(["c16", "f8", "c8", "i8", "u1"]))
    f1, _ = gen.values(rng, (N,) + shape, dk)
    f2, _ = gen.values(rng, (N,) + shape, dk)
    axis = int(rng.integers(0, len(shape) + 1))
    neg = bool(rng.random() < 0.3)
    ax = axis - len(shape) - 1 if neg else axis
    g1, g2 = gen.layout(rng, gen.put_axis(f1, axis)), gen.layout(rng, gen.put_axis(f2, axis))
    ctx.info = dict(frames=N, shape=shape, dtype=dk, axis=ax)
    kw = {} if ax == 0 and rng.random() < 0.5 else dict(axis=ax)
    tol = dict(rtol=2e-6 if dk == "c8" else 1e-12)
    means = [x.astype(complex if dk[0] == "c" else float).mean(0) for x in (f1, f2)]
    vs = [ref.abs2(x - m).mean(0) for x, m in zip((f1, f2), means)]
    s1 = 1.0 + float(np.abs(f1).max())
    m, v = core.stats(g1, **kw)
    ctx.close(m, means[0], "memory-mean", scale=s1, **tol)
    ctx.close(v, vs[0], "memory-variance", scale=s1 ** 2, **tol)
    (m1, m2), (v1, v2) = core.stats(g1, g2, **kw)
    s2 = 1.0 + float(np.abs(f2).max()) + s1
    for got, want, s in ((m1, means[0], s2), (m2, means[1], s2), (v1, vs[0], s2 ** 2), (v2, vs[1], s2 ** 2)):
        ctx.close(got, want, "memory-pair", scale=s, **tol)
    # background subtraction
    before = g1.copy()
    given = bool(rng.random() < 0.5)
    bg = (rng.integers(-9, 9, shape) + (1j * rng.integers(-9, 9, shape) if dk[0] == "c" else 0)) if given else None
    ret = bool(rng.random() < 0.5)
    kw2 = dict(kw)
    if given:
        kw2["bg"] = bg
    if ret:
        kw2["return_bg"] = True
    out = None
    if rng.random() < 0.3:
        out = np.full(g1.shape, np.nan, complex if dk[0] == "c" else float)
        kw2["out"] = out
    r = core.subtract_background(g1, **kw2)
    if ret:
        ctx.check(isinstance(r, tuple) and len(r) == 2, "subtract-pieces")
        r, rb = r
        ctx.close(rb, bg if given else means[0], "subtract-bg", scale=s1, **tol)
    else:
        ctx.check(isinstance(r, np.ndarray), "subtract-pieces")
    w = gen.put_axis(f1 - (bg if given else means[0]), axis)
    ctx.close(r, w, "subtract", scale=s1, **tol)
    if out is not None:
        ctx.check(r is out, "subtract-out", "output array not used")
    ctx.check(bool(np.array_equal(before, g1)), "input-unchanged")
    if dk[0] in "cf" and g1.flags.writeable:
        r = core.subtract_background(g1, out=g1, **{k: v for k, v in kw2.items() if k in ("axis", "bg")})
        ctx.close(g1, w, "subtract-in-place", scale=s1, **tol)
    ctx.mark("memory", dk, len(shape), ax, given, ret)


STREAMS = {"large": dict(fn=large, quick=40, thorough=1000), "stream": dict(fn=case, quick=900, thorough=15000), "memory": dict(fn=memory, quick=300, thorough=3000)}
