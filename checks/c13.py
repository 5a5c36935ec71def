"""C13: filters equal their definitions at every index and mix nothing"""
import numpy as np
from vh import ref, gen
from cddm import avg

PROP = "C13"
RULE = ("median, convolve, denoise, increasing, decreasing, interpolate, log_interpolate of arrays with 0-3 leading axes, lengths from 1, all layouts and dtypes, ties, plateaus, extreme values and NaN (where defined), "
        "against index by index definitions and their invariants (idempotence, bounds, node values, pixel by pixel equality); distinct by (filter, length, leading axes, dtype, kind of data)")
ASSUMPTIONS = ["median and convolution need at least three points and finite values (end points kept)", "interpolation nodes are strictly increasing, those of log_interpolate are non-negative integers"]
FLOORS = {"quick": {"median": 600, "convolve": 600, "monotone": 900, "interpolate": 600, "nodes": 600, "pixels": 900, "denoise": 250},
          "thorough": {"median": 12000, "convolve": 12000, "monotone": 18000, "interpolate": 12000, "nodes": 12000, "pixels": 18000, "denoise": 5000}}


def signal(rng, n, lead, cplx=False, dtypes=True):
    kind = str(rng.choice(["normal", "ties", "plateau", "ramp", "saw", "big", "noise-on-ramp", "int"]))
    s = lead + (n,)

    def one():
        if kind == "normal":
            return rng.normal(size=s)
        if kind == "ties":
            return rng.integers(-2, 3, s).astype(float)
        if kind == "plateau":
            return np.repeat(rng.normal(size=lead + (n // 2 + 1,)), 2, -1)[..., :n]
        if kind == "ramp":
            return np.sort(rng.normal(size=s), -1) * (1 if rng.random() < 0.5 else -1)
        if kind == "saw":
            return (-1.0) ** np.arange(n) * rng.uniform(0, 3, s)
        if kind == "big":
            return rng.normal(size=s) * 10.0 ** rng.integers(-12, 13, s)
        if kind == "int":
            return rng.integers(-50, 50, s).astype(float)
        return np.arange(n) * 0.5 + rng.normal(size=s)

    d = one()
    if cplx:
        d = d + 1j * one()
        if dtypes and rng.random() < 0.2:
            d = d.astype(np.complex64)
    elif dtypes:
        if kind == "int" and rng.random() < 0.7:
            d = d.astype(rng.choice(["i8", "i4", "f4"]))
        elif rng.random() < 0.15:
            d = d.astype(np.float32)
    return d, kind


def leading(rng):
    if rng.random() < 0.03:
        return tuple(int(x) for x in rng.integers(10, 70, int(rng.integers(1, 3))))
    return tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(0, 4))))


def med3(a):
    out = np.array(a, dtype=float)
    for k in range(1, a.shape[-1] - 1):
        out[..., k] = np.sort(a[..., k - 1:k + 2], -1)[..., 1]
    return out


def conv3(a):
    out = np.array(a)
    for k in range(1, a.shape[-1] - 1):
        out[..., k] = 0.25 * a[..., k - 1] + 0.5 * a[..., k] + 0.25 * a[..., k + 1]
    return out


def rerun(ctx, rng, fn, d, got, key="pixels", **kw):
    """pixel by pixel, and permuted pixels, give the same"""
    flat = d.reshape(-1, d.shape[-1])
    g = np.asarray(got).reshape(-1, np.shape(got)[-1])
    for p in rng.permutation(len(flat))[:3]:
        ctx.equal(fn(flat[p].copy(), **kw), g[p], key)
    perm = rng.permutation(len(flat))
    ctx.equal(fn(flat[perm], **kw), g[perm], key)


def smoothing(ctx, rng, i):
    n = int(rng.integers(3, 20)) if rng.random() < 0.8 else int(rng.integers(20, 200 if rng.random() < 0.9 else 4000))
    lead = leading(rng)
    cplx = bool(rng.random() < 0.35)
    d, kind = signal(rng, n, lead, cplx)
    ctx.info = dict(n=n, lead=lead, kind=kind, dtype=str(d.dtype))
    x = d.astype(complex if cplx else float)
    m = avg.median(gen.layout(rng, d))
    w = med3(x.real) + 1j * med3(x.imag) if cplx else med3(x)
    ctx.equal(m, w, "median")
    rerun(ctx, rng, avg.median, d, m)
    c = avg.convolve(gen.layout(rng, d))
    ctx.close(c, conv3(x), "convolve", rtol=1e-14)
    rerun(ctx, rng, avg.convolve, d, c)
    # end points, bounds, constants, linear ramps
    for r in (m, c):
        ctx.check(bool((r[..., 0] == x[..., 0]).all() and (r[..., -1] == x[..., -1]).all()), "median" if r is m else "convolve", "end points")
    for part in ((np.real, np.imag) if cplx else (np.real,)):
        lo, hi = part(x).min(-1), part(x).max(-1)
        s = np.abs(x).max() * 1e-14
        ctx.check(bool((part(c) >= lo[..., None] - s).all() and (part(c) <= hi[..., None] + s).all()), "convolve", "out of bounds")
    if rng.random() < 0.5:
        out = np.empty(x.shape, x.dtype)
        ctx.equal(avg.median(d, out=out), m, "median")
        ctx.equal(out, m, "median")
        out = np.empty(x.shape, x.dtype)
        avg.convolve(d, out=out)
        ctx.equal(out, c, "convolve")
    k = int(rng.integers(0, 6))
    for steps, kw in ((3, {}), (k, dict(n=k))):
        want = x
        for _ in range(steps):
            want = conv3(med3(want.real) + 1j * med3(want.imag) if cplx else med3(want))
        ctx.close(avg.denoise(gen.layout(rng, d), **kw), want, "denoise", rtol=1e-6 if d.dtype in (np.float32, np.complex64) else 1e-13)
    ctx.mark("smooth", n, len(lead), d.dtype, kind)


def monotone(ctx, rng, i):
    n = int(rng.integers(1, 20)) if rng.random() < 0.8 else int(rng.integers(20, 300 if rng.random() < 0.9 else 6000))
    lead = leading(rng)
    d, kind = signal(rng, n, lead)
    nan = d.dtype.kind == "f" and rng.random() < 0.3
    if nan:
        d = d.copy()
        d[rng.random(d.shape) < 0.3] = np.nan
        if rng.random() < 0.5:
            d[..., :int(rng.integers(0, n + 1))] = np.nan
    inf = d.dtype.kind == "f" and rng.random() < 0.1
    if inf:
        d = d.copy()
        d[rng.random(d.shape) < 0.1] = np.inf
        d[rng.random(d.shape) < 0.1] = -np.inf
    ctx.info = dict(n=n, lead=lead, kind=kind, dtype=str(d.dtype), nan=bool(nan))
    x = d.astype(float)
    for fn, op in ((avg.decreasing, np.fmin), (avg.increasing, np.fmax)):
        r = fn(gen.layout(rng, d))
        w = op.accumulate(x, -1)          # running extreme, NaN until the first number
        ctx.equal(r, w, "monotone")
        ctx.equal(fn(r), r, "monotone")
        s = np.sort(x, -1)
        s = s if fn is avg.increasing else s[..., ::-1]
        if not nan:
            ctx.equal(fn(s.copy()), s, "monotone")
        rerun(ctx, rng, fn, d, r)
        out = np.empty(x.shape)
        fn(d, out=out)
        ctx.equal(out, w, "monotone")
        y = x.copy()
        fn(y, out=y)
        ctx.equal(y, w, "monotone")
    ctx.mark("monotone", n, len(lead), d.dtype, kind, nan, inf)


def nodes(rng, m, log):
    if log:
        x = np.cumsum(rng.integers(1, 5, m))
        start = int(rng.choice([0, 0, 1, 2, 7]))
        return (x - x[0] + start).astype(np.int64)
    return np.cumsum(rng.uniform(0.1, 2, m)) + float(rng.normal())


def interpolation(ctx, rng, i):
    log = bool(i % 2)
    m = int(rng.integers(2, 14)) if rng.random() < 0.95 else int(rng.integers(14, 400))
    lead = leading(rng)
    cplx = bool(rng.random() < 0.4)
    y, kind = signal(rng, m, lead, cplx, dtypes=False)
    x = nodes(rng, m, log)
    fn = avg.log_interpolate if log else avg.interpolate
    ctx.info = dict(log=log, nodes=x, y=y, lead=lead)
    s = float(np.abs(y).max())
    r = fn(x, x, gen.layout(rng, y))
    ctx.close(r, y, "nodes", rtol=1e-12, scale=s)
    if log:
        xn = rng.integers(0, int(x[-1]) * 2 + 3, int(rng.integers(1, 20 if rng.random() < 0.95 else 3000)))
        xn = xn[xn > 0] if x[0] > 0 else xn
        if not len(xn):
            xn = x[:1]
    else:
        xn = rng.uniform(x[0] - 2, x[-1] + 2, int(rng.integers(1, 20 if rng.random() < 0.95 else 3000)))
    r = fn(gen.layout(rng, xn), gen.layout(rng, x), gen.layout(rng, y))
    want = np.empty(lead + (len(xn),), y.dtype)
    for k, v in enumerate(xn):
        j = int(np.searchsorted(x, v, side="left"))
        j = min(max(j, 1), m - 1)
        a, b = float(x[j - 1]), float(x[j])
        u = float(v)
        if log and a >= 1 and u > 1:
            a, b, u = np.log(a), np.log(b), np.log(u)
        f = (u - a) / (b - a)
        want[..., k] = (1 - f) * y[..., j - 1] + f * y[..., j]
        if x[0] <= v <= x[-1]:
            for part in ((np.real, np.imag) if cplx else (np.real,)):
                lo, hi = np.minimum(part(y[..., j - 1]), part(y[..., j])), np.maximum(part(y[..., j - 1]), part(y[..., j]))
                e = 1e-12 * s
                ctx.check(bool((part(r[..., k]) >= lo - e).all() and (part(r[..., k]) <= hi + e).all()), "interpolate", "not between the neighbours")
    span = float(np.max(np.abs(want)))
    ctx.close(r, want, "interpolate", rtol=1e-10, scale=max(span, s))
    if not log and not cplx:
        ins = (xn >= x[0]) & (xn <= x[-1])
        flat, g = y.reshape(-1, m), r.reshape(-1, len(xn))
        for p in range(min(3, len(flat))):
            ctx.close(g[p][ins], np.interp(xn[ins], x, flat[p]), "interpolate", rtol=1e-12, scale=s)
    flat, g = y.reshape(-1, m), r.reshape(-1, len(xn))
    for p in rng.permutation(len(flat))[:3]:
        ctx.equal(fn(xn, x, flat[p].copy()), g[p], "pixels")
    perm = rng.permutation(len(xn))
    ctx.equal(fn(xn[perm], x, y), r[..., perm], "pixels")
    out = np.empty(want.shape, y.dtype)
    fn(xn, x, y, out=out) if log else fn(xn, x, y, out)
    ctx.equal(out, r, "pixels")
    ctx.mark("interp", log, m, len(lead), cplx, kind)


def short(ctx, rng, i):
    """too few points: an exception, not garbage"""
    n = int(rng.integers(0, 3))
    d = rng.normal(size=leading(rng) + (n,))
    ctx.info = dict(n=n)
    for fn in (avg.median, avg.convolve):
        ctx.raises(Exception, lambda: fn(d), "rejected", "%d points" % n)
    ctx.raises(Exception, lambda: avg.interpolate(np.ones(3), np.ones(1), np.ones(1)), "rejected", "one node")
    ctx.raises(Exception, lambda: avg.log_interpolate(np.ones(3, int), np.ones(1, int), np.ones(1)), "rejected", "one node")
    ctx.mark("short", n)


STREAMS = {"smoothing": dict(fn=smoothing, quick=900, thorough=16000), "monotone": dict(fn=monotone, quick=700, thorough=14000),
           "interpolation": dict(fn=interpolation, quick=900, thorough=16000), "short": dict(fn=short, quick=24, thorough=100)}
