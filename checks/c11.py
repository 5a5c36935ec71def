"""C11: masking, thread division and reshaping never move or alter pixels"""
import numpy as np
from vh import ref, gen, multi
from cddm import core, multitau, norm as nm

PROP = "C11"
RULE = ("reshape_input/reshape_output/reshape_frame round trips of pixel-labelled arrays, and streaming, in-memory and multi-level correlation plus normalization with mask and divisor against the same "
        "call without them and against single pixels; frames of 1-3 dimensions, every time axis, leading level axes; distinct by (stage, dims, axis, mask, divisor, result kind)")
ASSUMPTIONS = ["mask only with time on the first axis", "values compared exactly for direct methods, 1e-12 for normalized and FFT results"]
FLOORS = {"quick": {"roundtrip": 900, "masked": 500, "single-pixel": 100, "rejected": 200, "normalized": 150},
          "thorough": {"roundtrip": 9000, "masked": 5000, "single-pixel": 1000, "rejected": 2000, "normalized": 1500}}


def shapes(rng, dims=(1, 1, 2, 2, 3), maxpix=36):
    return gen.frame_shape(rng, maxpix, dims=dims)


def some_mask(rng, shape):
    m = rng.random(shape) < rng.choice([0.2, 0.5, 0.9])
    if not m.any():
        m.flat[int(rng.integers(m.size))] = True
    return m


def divisor(rng, size):
    return int(rng.choice([d for d in range(1, size + 1) if size % d == 0]))


def large_roundtrip(ctx, rng, i):
    """large frames"""
    roundtrip(ctx, rng, i, True)


def large_end(ctx, rng, i):
    end_to_end(ctx, rng, i, True)


def roundtrip(ctx, rng, i, large=False):
    """per-pixel results put back where the pixel came from"""
    shape = shapes(rng) if not large else tuple(int(v) for v in rng.integers(20, 90, 2))
    N = int(rng.integers(1, 5))
    labels = np.arange(int(np.prod(shape))).reshape(shape) + 1.0
    axis = int(rng.integers(0, len(shape) + 1))
    mask = some_mask(rng, shape) if axis == 0 and rng.random() < 0.5 else None
    size = labels.size if mask is None else int(mask.sum())
    td = divisor(rng, size) if rng.random() < 0.6 else None
    f = gen.put_axis(labels[None] + 1j * np.arange(N).reshape((N,) + (1,) * len(shape)), axis)
    neg = rng.random() < 0.3
    ax = axis - len(shape) - 1 if neg and mask is None else axis
    ctx.info = dict(shape=shape, frames=N, axis=ax, divisor=td, mask=None if mask is None else mask.tolist())
    g, kshape = core.reshape_input(gen.layout(rng, f), axis=ax, thread_divisor=td, mask=mask)
    ctx.check(tuple(kshape) == (shape if mask is None else (size,)), "frame-shape", lambda: repr(kshape))
    ctx.check(g.size == N * size, "input-size")
    if td is not None:
        # time stays on its axis (or the last one there is)
        ta = min(axis, g.ndim - 1)
        ctx.check(g.ndim == 3 and g.shape[ta] == N and g.shape[0 if ta else 1] == td, "divided-shape", lambda: "%r, divisor %d" % (g.shape, td))
    ta = min(axis, g.ndim - 1)
    v = np.moveaxis(g, ta, 0)
    ctx.check(bool((v.imag == np.arange(N).reshape((N,) + (1,) * (v.ndim - 1))).all()), "time-kept", "frames are mixed")
    ctx.check(bool((v.real == v.real[0]).all()), "pixels-kept", "pixel order differs between frames")
    # per-pixel "results": two delays carrying the pixel's label; raw, with levels, and normalized
    p = v.real[0]
    lead = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
    n = int(rng.integers(1, 4))
    res = np.empty(lead + p.shape + (n,))
    res[...] = p[..., None] * 100 + np.arange(n)
    for k, idx in enumerate(np.ndindex(*lead)):
        res[idx] += 0.001 * k
    cnt = np.arange(int(np.prod(lead)) * n).reshape(lead + (n,))
    want = np.full(lead + shape + (n,), np.nan)
    sel = np.ones(shape, bool) if mask is None else mask
    for k, idx in enumerate(np.ndindex(*lead)):
        want[idx + (sel,)] = labels[sel][:, None] * 100 + np.arange(n) + 0.001 * k
    five = bool(rng.random() < 0.5)
    tup = (res, cnt, None if rng.random() < 0.5 else 2 * res) + ((res * 1j, None) if five else (res + 1,))
    kw = dict(shape=kshape) if mask is None else (dict(mask=mask) if rng.random() < 0.5 else dict(shape=kshape, mask=mask))
    out = core.reshape_output(tup, **kw)
    ctx.check(len(out) == len(tup) and np.array_equal(out[1], cnt), "counts-kept")
    for o, t, w in zip(out, tup, (want, None, 2 * want, want * 1j if five else want + 1, None)):
        ctx.check((o is None) == (t is None), "pieces-kept")
        if o is not None and w is not None:
            o = np.asarray(o)
            ctx.shape(o.shape, w.shape, "roundtrip")
            bad = np.isnan(w)
            ctx.check(bool(np.isnan(o[bad]).all()), "nan-outside")
            ctx.equal(o[~bad], w[~bad], "roundtrip")
    if all(x > 1 for x in lead):
        # a bare array does not say how many of its axes are levels: one entry levels are ambiguous
        out = core.reshape_output(res, **kw)
        ctx.shape(out.shape, want.shape, "roundtrip-normalized")
        ctx.equal(out, want, "roundtrip-normalized")
    fr = core.reshape_frame(p + 0.5, kshape, mask)
    w = np.where(sel, labels + 0.5, np.nan)
    ctx.equal(fr, w, "roundtrip-frame")
    ctx.mark("roundtrip", len(shape), axis, mask is not None, td, len(lead), five)


def end_to_end(ctx, rng, i, large=False):
    """correlation with mask and divisor equals the plain one, pixel by pixel"""
    auto = bool(rng.random() < 0.5)
    kind = str(rng.choice(["acorr_multi", "iacorr", "iacorr_multi"]))
    method = str(rng.choice(["corr", "fft", "diff"]))
    cplx = bool(rng.random() < 0.3) and method != "diff"
    shape = shapes(rng, maxpix=24) if not large else tuple(int(v) for v in rng.integers(12, 50, 2))
    N = 32
    f1 = rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape)
    f2 = rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape)
    mask = some_mask(rng, shape) if rng.random() < 0.7 else None
    sel = np.ones(shape, bool) if mask is None else mask
    td = divisor(rng, int(sel.sum())) if rng.random() < 0.6 else None
    ctx.info = dict(kind=kind, auto=auto, method=method, complex=cplx, shape=shape, divisor=td, mask=None if mask is None else mask.tolist())
    kw = dict(method=method, complex=cplx)
    lay = gen.frame_layouts(rng)

    def run(a, b, **k):
        if kind == "acorr_multi":
            return multitau.acorr_multi(a, level_size=6, **kw, **k) if auto else multitau.ccorr_multi(a, b, level_size=6, **kw, **k)
        src = ((lay(x),) for x in a) if auto else ((lay(x), lay(y)) for x, y in zip(a, b))
        if kind == "iacorr":
            f = core.iacorr if auto else core.iccorr
            return f(src, n=6, count=N, chunk_size=8, **kw, **k)
        f = multitau.iacorr_multi if auto else multitau.iccorr_multi
        return f(src, level_size=6, count=N, chunk_size=8, **kw, **k)

    def split(r):
        """-> list of (tuple, number of leading axes), list of frames"""
        if kind == "acorr_multi":
            return [(r[0], 0), (r[1], 1)], []
        data, bg, var = r
        fr = [bg, var] if auto else list(bg) + list(var)
        return ([(data, 0)] if kind == "iacorr" else [(data[0], 0), (data[1], 1)]), fr

    got, gf = split(run(f1, f2, thread_divisor=td, mask=mask))
    want, wf = split(run(f1, f2))
    for (g, lead), (w, _) in zip(got, want):
        ctx.check(len(g) == len(w), "pieces")
        for k, (a, b) in enumerate(zip(g, w)):
            ctx.check((a is None) == (b is None), "pieces")
            if a is None:
                continue
            if k == 1:
                ctx.equal(a, b, "counts")
                continue
            ctx.shape(a.shape, b.shape, "masked")
            pix = (slice(None),) * lead
            ctx.check(bool(np.isnan(a[pix + (~sel,)]).all()), "nan-outside")
            ctx.close(a[pix + (sel,)], b[pix + (sel,)], "masked", rtol=1e-12, scale=200.0)
    for a, b in zip(gf, wf):
        ctx.shape(a.shape, b.shape, "frames")
        ctx.check(bool(np.isnan(a[~sel]).all()), "nan-outside")
        ctx.close(a[sel], b[sel], "frames", rtol=1e-12, scale=4.0)
    # one pixel alone
    p = tuple(int(x) for x in np.argwhere(sel)[int(rng.integers(sel.sum()))])
    one, _ = split(run(f1[(slice(None),) + p][:, None], f2[(slice(None),) + p][:, None]))
    for (g, lead), (w, _) in zip(got, one):
        for k, (a, b) in enumerate(zip(g, w)):
            if a is None or k == 1:
                continue
            ctx.close(a[(slice(None),) * lead + p], b[..., 0, :], "single-pixel", rtol=1e-12, scale=200.0)
    # normalization of the masked result: the same pixels, the others NaN
    if method != "diff" or not auto:
        bg, var = core.stats(f1) if auto else core.stats(f1, f2)
        if auto:
            bg, var = (bg, bg), (var, var)
        norm = int(rng.choice([1, 2, 5, 6])) if method != "diff" else 2
        for (g, lead), (w, _) in zip(got, want):
            have = np.asarray(w[1]) > 0
            a, b = nm.normalize(g, bg, var, norm=norm), nm.normalize(w, bg, var, norm=norm)
            pix = (slice(None),) * lead
            c = nm.normalize(w, bg, var, norm=norm, mask=sel)
            ctx.shape(c.shape, b[pix + (sel,)].shape, "normalized")
            h = np.broadcast_to(have[..., None, :] if lead else have, c.shape)
            ctx.close(a[pix + (sel,)][h], b[pix + (sel,)][h], "normalized", rtol=1e-11, scale=10.0)
            ctx.close(c[h], b[pix + (sel,)][h], "normalized", rtol=1e-11, scale=10.0)
            r = core.reshape_output(c, mask=sel)
            ctx.close(r[pix + (sel,)][h], b[pix + (sel,)][h], "normalized", rtol=1e-11, scale=10.0)
            ctx.check(bool(np.isnan(r[pix + (~sel,)]).all()), "nan-outside")
    ctx.mark("end", kind, auto, method, cplx, len(shape), mask is not None, td)


def rejected(ctx, rng, i):
    shape = shapes(rng, dims=(1, 2, 2))
    N = 16
    f = rng.normal(size=(N,) + shape) + 0j
    size = int(np.prod(shape))
    bad = int(rng.choice([d for d in range(2, size + 3) if size % d]))
    mask = some_mask(rng, shape)
    ctx.info = dict(shape=shape, divisor=bad)
    R = lambda fn, what: ctx.raises(Exception, fn, "rejected", what)
    R(lambda: core.reshape_input(f, thread_divisor=bad), "divisor")
    R(lambda: multitau.acorr_multi(f, level_size=6, thread_divisor=bad), "divisor")
    R(lambda: core.iacorr(((x,) for x in f), n=4, count=N, chunk_size=8, thread_divisor=bad), "divisor")
    R(lambda: multitau.ccorr_multi(f, f, level_size=6, thread_divisor=bad), "divisor")
    big = np.ones(tuple(s + 1 for s in shape), bool)
    R(lambda: core.reshape_input(f, mask=big), "mask shape")
    R(lambda: multitau.acorr_multi(f, level_size=6, mask=big), "mask shape")
    R(lambda: core.iacorr(((x,) for x in f), n=4, count=N, chunk_size=8, mask=big), "mask shape")
    R(lambda: core.reshape_input(np.moveaxis(f, 0, -1), axis=-1, mask=mask), "mask with another axis")
    R(lambda: multitau.acorr_multi(np.moveaxis(f, 0, -1), axis=-1, mask=mask, level_size=6), "mask with another axis")
    R(lambda: core.reshape_output(f.T.real.copy()), "neither shape nor mask")
    ctx.mark("rejected", shape)


STREAMS = {"roundtrip": dict(fn=roundtrip, quick=1200, thorough=20000), "large-roundtrip": dict(fn=large_roundtrip, quick=40, thorough=800), "large-end": dict(fn=large_end, quick=12, thorough=300), "end": dict(fn=end_to_end, quick=300, thorough=4000), "rejected": dict(fn=rejected, quick=24, thorough=300)}
