"""C05: normalization equals correlating the background-corrected signal"""
import numpy as np
from vh import ref, gen
from cddm import core, norm as nm, multitau

PROP = "C05"
RULE = ("normalize/normalize_multi over every supported (method, norm, mode, scale, complex, mask, out) of tuples built from random signals, backgrounds, variances, irregular times and multi-level stacks; "
        "each value compared with the average over the frame pairs of the directly computed estimator; distinct by (auto, method, norm, mode, scale, complex, mask, levels, times, dims, backgrounds)")
ASSUMPTIONS = ["delays without pairs excluded", "complex auto-correlation uses the average of the two delay-resolved means for both signals", "1e-9 of the signal power",
               "backgrounds and variances of a dual-camera pair are tuples or lists"]
FLOORS = {"quick": {"normalized": 1500, "finite": 1500, "agree": 150, "rejected": 200, "levels": 100},
          "thorough": {"normalized": 15000, "finite": 15000, "agree": 1500, "rejected": 2000, "levels": 1000}}


def estimate(f1, f2, pairs, auto, norm, cplx, b1, b2, V):
    """direct estimator per delay in corr representation: array (frame shape + delays), NaN if there is no pair"""
    out = np.full(f1.shape[1:] + (len(pairs),), np.nan, complex)
    for k, (i, j) in enumerate(pairs):
        if len(i) == 0:
            continue
        x, y = f1[i], f2[j]
        mx, my = x.mean(0), y.mean(0)
        if auto:
            mx = my = (mx + my) / 2
        sub = {0: (0, 0), 4: (b1, b2), 8: (mx, my), 12: (b1, b2)}[norm & 12]
        if norm & 3 == 1:
            if norm & 12:
                if auto and cplx:
                    # bilinear form with the averaged mean
                    s = sub[0]
                    m = (x.mean(0) + y.mean(0)) / 2
                    v = (np.conj(x) * y).mean(0) - np.conj(s) * m - np.conj(m) * s + np.conj(s) * s
                else:
                    v = (np.conj(x - sub[0]) * (y - sub[1])).mean(0)
            else:
                v = (np.conj(x) * y).mean(0) - np.conj(b1) * b2
        else:
            def half(u, w, p, q):
                # half of the mean squared difference with the background taken off
                if norm & 12:
                    if auto and cplx and u is not x:
                        pass
                    return 0.5 * ref.abs2((u - p) - (w - q)).mean(0)
                return 0.5 * (ref.abs2(u - w).mean(0) - ref.abs2(p - q))
            s = sub if norm & 12 else (b1, b2)
            re = V - half(x, y, s[0], s[1])
            im = 0
            if cplx:
                # Im(conj(x) y) from |x + i y|^2
                if auto and norm & 12:
                    m = (x.mean(0) + y.mean(0)) / 2
                    d = ref.abs2(x + 1j * y).mean(0)
                    lin = 2 * ((m.imag + m.real) * (s[0].imag + s[1].real) + (m.real - m.imag) * (s[0].real - s[1].imag))
                    im = V - 0.5 * (d - lin + ref.abs2(s[0] + 1j * s[1]))
                else:
                    im = V - half(x, -1j * y, s[0], -1j * s[1])
            v = re + 1j * im
        out[..., k] = v
    return out if cplx else out.real


def make_tuple(rng, f1, f2, t1, t2, n, level, method, cplx, use_cddm):
    """level: norm flags deciding which pieces are there"""
    auto = f2 is None
    if use_cddm:
        if auto:
            return core.acorr(f1, t1, n=n, norm=level, method=method, complex=cplx) if method != "diff" else core.acorr(f1, t1, n=n, norm=level, method=method)
        return core.ccorr(f1, f2, t1, t2, n=n, norm=level, method=method, complex=cplx)
    if auto:
        return ref.acorr_tuple(f1, t1, n, level, method, cplx)
    r = ref.ccorr_tuple(f1, f2, t1, t2, n, level, method, cplx)
    return r


def large(ctx, rng, i):
    """long recordings and large frames"""
    case(ctx, rng, i, True)


def case(ctx, rng, i, large=False):
    auto = bool(rng.random() < 0.45)
    method = str(rng.choice(["corr", "corr", "corr", "diff"]))
    N = int(rng.choice([2, 5, 9, 16, 25])) if not large else int(rng.choice([2, 30, 250]))
    shape = gen.frame_shape(rng, 10, dims=(1, 1, 2, 2, 3)) if not large or N == 250 else tuple(int(v) for v in rng.integers(8, 48, 2))
    n = int(rng.integers(1, N + 4))
    cplx = bool(rng.random() < 0.35) and method == "corr"
    off = float(rng.choice([0, 0, 1, 10]))
    sig = lambda: rng.normal(size=(N,) + shape) * rng.choice([0.5, 1, 3]) + 1j * rng.normal(size=(N,) + shape) + off * (rng.normal(size=shape) + 1j * rng.normal(size=shape))
    f1 = sig()
    f2 = None if auto else sig() + (f1 if rng.random() < 0.5 else 0)
    mag = float(rng.choice([1e-5, 1, 1, 1, 1e5]))
    f1 = f1 * mag
    f2 = None if auto else f2 * mag
    real_signal = rng.random() < 0.15
    if real_signal:
        f1 = f1.real + 0j
        f2 = None if auto else f2.real + 0j
    tk = str(rng.choice(["arange", "gaps", "wide", "shuffled", "offset"]))
    t1, _ = gen.times(rng, N, tk, distinct=True)
    t2 = t1 if auto else gen.times(rng, N, tk, distinct=True)[0]
    if method == "diff":
        level = 2 if auto else int(rng.choice([2, 6]))
        allowed = [2] if level == 2 else [2, 6]
    else:
        level = int(rng.choice([1, 2, 3, 5, 6, 7, 7, 7]))
        # the tuple's pieces decide what is available: sq -> structured, sums -> subtracted and compensated
        has_sq, has_m = bool(level & 2), bool(level & 4)
        allowed = [1] + ([2] if has_sq else []) + ([5, 9, 13] if has_m else []) + ([6, 10, 14] if has_m and has_sq else [])
    data = make_tuple(rng, f1, f2, t1, t2, n, level, method, cplx, bool(rng.random() < 0.5))
    norm = int(rng.choice(allowed))
    mode = str(rng.choice(["corr", "diff"]))
    scale = bool(rng.random() < 0.4)
    own = bool(rng.random() < 0.5)
    if own:
        b1, v1 = f1.mean(0), f1.var(0)
        b2, v2 = (b1, v1) if auto else (f2.mean(0), f2.var(0))
    else:
        b1 = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        v1 = rng.uniform(0.5, 5, shape)
        b2, v2 = (b1, v1) if auto else (rng.normal(size=shape) + 1j * rng.normal(size=shape), rng.uniform(0.5, 5, shape))
    # a pair may be given for a single signal too
    as_pair = not auto or rng.random() < 0.3 or shape[0] == 2
    wrap = (lambda a, b: (a, b)) if rng.random() < 0.7 else (lambda a, b: [a, b])
    bg, var = (wrap(b1, b2), wrap(v1, v2)) if as_pair else (b1, v1)
    V = (v1 + v2) / 2
    mask = None
    if rng.random() < 0.3:
        mask = rng.random(shape) < 0.6
    out = None
    kw = dict(norm=norm, mode=mode, scale=scale, mask=mask)
    if rng.random() < 0.2:
        names = {1: "standard", 2: "structured", 4: "subtracted", 8: "compensated"}
        kw["norm"] = str(rng.choice(["|", " | "])).join(names[b] for b in (1, 2, 4, 8) if norm & b)
        if rng.random() < 0.3:
            kw["norm"] = kw["norm"].upper()
    pairs = ref.pairs_auto(t1, n) if auto else ref.pairs_cross(t1, t2, n, cplx)
    ctx.info = dict(auto=auto, method=method, level=level, kwargs={k: v for k, v in kw.items() if k != "mask"}, frames=N, shape=shape, n=n, complex=cplx, times=tk, own=own,
                    pair=as_pair, mask=None if mask is None else mask.tolist())
    want = estimate(f1, f1 if auto else f2, pairs, auto, norm, cplx, b1, b2, V[...]) if method == "corr" or True else None
    if mode == "diff":
        want = 2 * (V[..., None] - want)
    if scale:
        want = want / V[..., None]
    have = data[1] > 0
    power = float(ref.abs2(f1).max() + (0 if auto else ref.abs2(f2).max()) + ref.abs2(b1).max() + ref.abs2(b2).max() + V.max())
    if scale:
        power = power / float(V.min())
    if mask is not None:
        want = want[mask]
    if rng.random() < 0.15:
        out = np.full(want.shape, np.nan, complex if cplx else float)
        kw["out"] = out
    got = nm.normalize(data, bg, var, **kw)
    ctx.shape(got.shape, want.shape, "normalized")
    ctx.check(bool(np.isfinite(got[..., have]).all()), "finite", "not finite where pairs exist")
    ctx.close(got[..., have], want[..., have], "normalized", rtol=1e-10, scale=power)
    if out is not None:
        ctx.check(out is got or np.array_equal(out, got, equal_nan=True), "out-used")
    ctx.mark(auto, method, norm, mode, scale, cplx, mask is not None, tk, len(shape), own, as_pair, level)


def default_norm(ctx, rng, i):
    """without norm the richest supported one is used; unsupported ones are rejected"""
    auto = bool(rng.random() < 0.5)
    method = str(rng.choice(["corr", "diff"]))
    N, shape = 12, (3, 4)
    f1 = rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape)
    f2 = None if auto else rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape)
    t = np.arange(N)
    level = (2 if auto else int(rng.choice([2, 6]))) if method == "diff" else int(rng.choice([1, 2, 3, 5, 6, 7]))
    data = make_tuple(rng, f1, f2, t, t, 6, level, method, False, True)
    bg, var = core.stats(f1) if auto else core.stats(f1, f2)
    if method == "diff":
        best, ok = (level, [2] if level == 2 else [2, 6])
    else:
        best = 1 | (2 if level & 2 else 0) | (4 if level & 4 else 0)
        have = best | (8 if level & 4 else 0)
        ok = [k for k in (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15) if k & have == k]
    ctx.info = dict(auto=auto, method=method, level=level, best=best, supported=ok)
    a = nm.normalize(data, bg, var)
    b = nm.normalize(data, bg, var, norm=best)
    ctx.equal(a, b, "default-norm")
    for k in range(17):
        f = lambda: nm.normalize(data, bg, var, norm=k)
        if k in ok:
            r = f()
            ctx.shape(r.shape, shape + (6,), "supported")
        else:
            ctx.raises(ValueError, f, "rejected", "norm %d" % k)
    ctx.raises(ValueError, lambda: nm.normalize(data, bg, var, mode="foo"), "rejected", "mode")
    ctx.raises(ValueError, lambda: nm.normalize(data, bg, var, norm="foo"), "rejected", "norm string")
    ctx.raises(ValueError, lambda: nm.normalize(data[:3], bg, var), "rejected", "tuple length")
    ctx.raises(ValueError, lambda: nm.normalize(data, None, var), "rejected", "no background")
    ctx.raises(ValueError, lambda: nm.normalize(data, bg, None, scale=True), "rejected", "no variance")
    other = "diff" if method == "corr" else "corr"
    ctx.raises(ValueError, lambda: nm.normalize(data, bg, None, mode=other), "rejected", "no variance for conversion")
    # flags
    for st in (False, True):
        for su in (False, True):
            for w in (False, True):
                for c in (False, True):
                    want = (3 if w else 2 if st else 1) | (4 if su else 0) | (8 if c else 0)
                    ctx.check(nm.norm_flags(structured=st, subtracted=su, weighted=w, compensated=c) == want, "flags")
    ctx.check([nm.norm_from_string(s) for s in ("standard", "structured", "weighted", "subtracted", "compensated", "compensated|subtracted", "structured|subtracted", "weighted|compensated")]
              == [1, 2, 3, 5, 9, 13, 6, 11], "flag-strings")
    ctx.mark("default", auto, method, level)


def agree(ctx, rng, i):
    """difference and correlation methods give the same normalized data; real part of complex equals real"""
    auto = bool(rng.random() < 0.5)
    N, shape = int(rng.integers(4, 30)), gen.frame_shape(rng, 8, dims=(1, 2))
    n = int(rng.integers(1, N + 1))
    f1 = rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape) + 2
    f2 = None if auto else f1 * 0.5 + rng.normal(size=(N,) + shape)
    bg, var = core.stats(f1) if auto else core.stats(f1, f2)
    if auto:
        bg, var = (bg, bg), (var, var)
    run = lambda **k: core.acorr(f1, n=n, **k) if auto else core.ccorr(f1, f2, n=n, **k)
    norm = 2 if auto else int(rng.choice([2, 6]))
    ctx.info = dict(auto=auto, frames=N, n=n, norm=norm, shape=shape)
    d = run(method="diff", norm=norm)
    c = run(method="corr", norm=7)
    q = run(method="fft", norm=7)
    for mode in ("corr", "diff"):
        for scale in (False, True):
            kw = dict(norm=norm, mode=mode, scale=scale)
            a = nm.normalize(d, bg, var, **kw)
            ctx.close(nm.normalize(c, bg, var, **kw), a, "agree", rtol=1e-10, scale=100.0)
            ctx.close(nm.normalize(q, bg, var, **kw), a, "agree", rtol=1e-10, scale=100.0)
    z = run(method="corr", norm=7, complex=True)
    for k in (1, 2, 5, 6, 9, 10):
        r = nm.normalize(c, bg, var, norm=k)
        w = nm.normalize(z, bg, var, norm=k)
        if auto:
            ctx.close(w.real, r, "real-part", rtol=1e-10, scale=100.0)
        else:
            w0 = w[..., 0]
            ctx.close(w0.real, r[..., 0], "real-part", rtol=1e-10, scale=100.0)
    ctx.mark("agree", auto, N, n, norm)


def multilevel(ctx, rng, i):
    """level by level"""
    auto = bool(rng.random() < 0.5)
    cplx = bool(rng.random() < 0.3)
    method = str(rng.choice(["corr", "fft", "diff"]))
    cplx = cplx and method != "diff"
    N, shape = int(rng.integers(20, 120)), gen.frame_shape(rng, 8, dims=(1, 2, 2))
    ls = int(rng.choice([5, 8]))
    f1 = rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape) + 1
    f2 = None if auto else rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape)
    kw = dict(level_size=ls, method=method, complex=cplx)
    data = multitau.acorr_multi(f1, **kw) if auto else multitau.ccorr_multi(f1, f2, **kw)
    bg, var = core.stats(f1) if auto else core.stats(f1, f2)
    if auto:
        bg, var = (bg, bg), (var, var)
    mask = (rng.random(shape) < 0.6) if rng.random() < 0.4 else None
    norm = int(rng.choice([2] if auto else [2, 6])) if method == "diff" else int(rng.choice([1, 2, 5, 6, 9, 10, 13, 14]))
    kw = dict(norm=norm, mode=str(rng.choice(["corr", "diff"])), scale=bool(rng.random() < 0.5), mask=mask)
    ctx.info = dict(auto=auto, method=method, complex=cplx, frames=N, shape=shape, kwargs={k: v for k, v in kw.items() if k != "mask"})
    lin, mul = multitau.normalize_multi(data, bg, var, **kw)
    L, M = data
    b1, b2 = bg
    V = (var[0] + var[1]) / 2
    # a single level is normalized like linear data
    ctx.close(lin, nm.normalize(L, bg, var, **kw), "lin", rtol=1e-12)
    ctx.check(mul.shape[0] == M[1].shape[0], "level-count")
    for j in range(M[1].shape[0]):
        one = tuple(None if x is None else x[j] for x in M)
        w = nm.normalize(one, bg, var, **kw)
        have = one[1] > 0
        ctx.close(mul[j][..., have], w[..., have], "levels", rtol=1e-10, scale=50.0)
    ctx.mark("multi", auto, method, norm, cplx, kw["mode"], kw["scale"], mask is not None, M[1].shape[0])


def two_rows(ctx, rng, i):
    """single background and variance arrays whose first dimension is two"""
    f = rng.normal(size=(10, 2, 3)) + 1j * rng.normal(size=(10, 2, 3)) + 3
    bg, var = core.stats(f)
    data = core.acorr(f, n=4)
    ctx.info = dict(shape=(2, 3))
    which = ("background", "variance")[i % 2]
    norm = 5 if which == "background" else 2
    want = nm.normalize(data, (bg, bg), (var, var), norm=norm)
    try:
        got = nm.normalize(data, bg if which == "background" else (bg, bg), var if which == "variance" else (var, var), norm=norm)
    except ValueError as e:
        ctx.fail("two-row-" + which, "single %s array of shape (2, 3) taken for a pair: %s" % (which, e))
    if got.shape != want.shape or not np.allclose(got, want):
        ctx.fail("two-row-" + which, "single %s array of shape (2, 3) taken for a pair" % which)


STREAMS = {"two-rows": dict(fn=two_rows, quick=2, thorough=2, probe=True), "large": dict(fn=large, quick=40, thorough=2000), "normalize": dict(fn=case, quick=2000, thorough=40000), "default": dict(fn=default_norm, quick=60, thorough=400),
           "agree": dict(fn=agree, quick=80, thorough=1000), "multi": dict(fn=multilevel, quick=200, thorough=2500)}
