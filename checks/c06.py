"""C06: weighted normalization and scaling follow their stated formulas"""
import numpy as np
from vh import ref, gen
from cddm import core, norm as nm, multitau, avg

PROP = "C06"
RULE = ("weighted normalization over norms 3/7/11/15, modes, scale, complex, mask, given or data-derived weight compared with the combination of the two estimators and the stated weight; scaled against "
        "unscaled results of every norm; weight/noise/scale/sigma helpers against their formulas and the variance-minimizing property; distinct by (auto, norm, mode, scale, complex, mask, weight, variances)")
ASSUMPTIONS = ["weights need at least three delays", "weights given for complex data are complex (separate weights for real and imaginary part)", "1e-9 relative"]
FLOORS = {"quick": {"weighted": 900, "scaled": 900, "helpers": 300, "optimal": 200},
          "thorough": {"weighted": 9000, "scaled": 9000, "helpers": 3000, "optimal": 2000}}


def wg(g, delta):
    return 2 * g / (ref.abs2(g) + 1 + delta ** 2)


def weight_of(corr, delta, sf, mode, pre=True):
    if pre:
        corr = ref.denoise(corr)
    g = corr / np.asarray(sf, float)[..., None]
    if mode == "diff":
        g = 1 - g / 2
    return wg(g, np.asarray(delta, float)[..., None])


def combine(x, y, w):
    if np.iscomplexobj(w):
        return (x.real * w.real + (1 - w.real) * y.real) + 1j * (x.imag * w.imag + (1 - w.imag) * y.imag)
    return x * w + (1 - w) * y


def case(ctx, rng, i, big=False):
    auto = bool(rng.random() < 0.4)
    cplx = bool(rng.random() < 0.3)
    N = int(rng.integers(6, 40))
    n = int(rng.integers(3, N + 1))
    shape = gen.frame_shape(rng, 10, dims=(1, 2, 2))
    amp = float(rng.choice([1e-5, 0.1, 1.0, 30.0, 1e5]))
    if big:
        N, shape = int(rng.integers(12, 20)), (int(rng.integers(18, 48)), int(rng.integers(18, 48)))
        n = int(rng.integers(6, N + 1))
    f1 = amp * (np.cumsum(rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape), axis=0) * rng.choice([0, 0.3]) + rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape))
    f2 = None if auto else f1 * float(rng.choice([1, 0.5, 3])) + amp * 0.3 * (rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape))
    kw = dict(n=n, norm=7, method=str(rng.choice(["corr", "fft"])), complex=cplx)
    data = core.acorr(f1, **kw) if auto else core.ccorr(f1, f2, **kw)
    bg, var = core.stats(f1) if auto else core.stats(f1, f2)
    if auto and (rng.random() < 0.5 or shape[0] == 2):
        bg, var = (bg, bg), (var, var)
    v1, v2 = var if isinstance(var, tuple) else (var, var)
    b1, b2 = bg if isinstance(bg, tuple) else (bg, bg)
    V = (v1 + v2) / 2
    delta = (v2 - v1) / (v1 + v2)
    norm = int(rng.choice([3, 7, 11, 15]))
    mode = str(rng.choice(["corr", "diff"]))
    scale = bool(rng.random() < 0.5)
    mask = rng.random(shape) < 0.6 if rng.random() < 0.3 else None
    given = bool(rng.random() < 0.3)
    sel = (lambda a: a) if mask is None else (lambda a: a[mask])
    size = 2 * n - 1 if cplx and not auto else n
    want_shape = sel(np.zeros(shape)).shape + (size,)
    k = dict(mode=mode, scale=scale, mask=mask)
    ctx.info = dict(auto=auto, complex=cplx, frames=N, n=n, shape=shape, norm=norm, given_weight=given, kwargs={a: b for a, b in k.items() if a != "mask"}, amplitude=amp)
    st = nm.normalize(data, bg, var, norm=(norm & 12) | 2, **k)
    ba = nm.normalize(data, bg, var, norm=(norm & 12) | 1, **k)
    have = data[1] > 0
    full = bool(have.all())
    power = float(ref.abs2(f1).max() + (0 if auto else ref.abs2(f2).max()))
    power = power / float(V.min()) if scale else power
    if given:
        w = rng.uniform(0, 1, want_shape)
        if cplx:
            w = w + 1j * rng.uniform(0, 1, want_shape)
        elif rng.random() < 0.3:
            w = w[..., 0:1]
        got, rw = nm.normalize(data, bg, var, norm=norm, weight=w, ret_weight=True, **k)
        ctx.check(rw is w or np.array_equal(rw, w), "given-weight-returned")
        ctx.close(got[..., have], combine(st, ba, w)[..., have], "weighted", rtol=1e-10, scale=power)
        w0 = w.copy()
        got = nm.normalize(data, bg, var, norm=norm, weight=w, **k)
        ctx.check(np.array_equal(w, w0), "given-weight-kept", "the given weight was changed")
        out = np.full(got.shape, np.nan, got.dtype)
        r = nm.normalize(data, bg, var, norm=norm, weight=w, out=out, **k)
        ctx.check(np.array_equal(out, got, equal_nan=True) and np.array_equal(r, got, equal_nan=True), "out-used", "output array not filled (given weight)")
        ctx.close(got[..., have], combine(st, ba, w)[..., have], "weighted", rtol=1e-10, scale=power)
    elif full:
        sf = sel(np.ones(shape)) if scale else sel(V)
        d = sel(delta)
        # with scale the data are dimensionless
        w = weight_of(ba, d, sf, mode)
        for _ in range(2):
            w = weight_of(combine(st, ba, w), d, sf, mode)
        got, rw = nm.normalize(data, bg, var, norm=norm, ret_weight=True, **k)
        ctx.close(rw, w, "weight", rtol=1e-8, scale=1.0)
        ctx.close(got, combine(st, ba, rw), "weighted", rtol=1e-10, scale=power)
        g2 = nm.normalize(data, bg, var, norm=norm, **k)
        ctx.equal(g2, got, "weight-not-returned")
        out = np.full(got.shape, np.nan, got.dtype)
        r = nm.normalize(data, bg, var, norm=norm, out=out, **k)
        ctx.check(np.array_equal(out, got) and np.array_equal(r, got), "out-used", "output array not filled")
        out = np.full(got.shape, np.nan, got.dtype)
        r, rw2 = nm.normalize(data, bg, var, norm=norm, out=out, ret_weight=True, **k)
        ctx.check(np.array_equal(out, got) and np.array_equal(r, got) and np.array_equal(rw2, rw), "out-used", "output array not filled (ret_weight)")
    # scaling divides every norm by the same factor
    for nn in (1, 2, 5, 6, 9, 10, 13, 14, norm):
        if nn & 3 == 3 and not full:
            continue
        a = nm.normalize(data, bg, var, norm=nn, mode=mode, mask=mask)
        b = nm.normalize(data, bg, var, norm=nn, mode=mode, mask=mask, scale=True)
        s = sel(V)[..., None]
        ctx.close((b * s)[..., have], a[..., have], "scaled", rtol=1e-8, scale=float(ref.abs2(f1).max() + (0 if auto else ref.abs2(f2).max())))
    # masked is a selection of the unmasked
    if mask is not None and (full or given):
        wk = dict(weight=None)
        a = nm.normalize(data, bg, var, norm=norm, mode=mode, scale=scale)
        b = nm.normalize(data, bg, var, norm=norm, mode=mode, scale=scale, mask=mask)
        ctx.close(b[..., have], a[mask][..., have], "masked", rtol=1e-9, scale=power)
    ctx.mark(auto, norm, mode, scale, cplx, mask is not None, given, full, amp, isinstance(var, tuple))


def large(ctx, rng, i):
    """frames of hundreds to thousands of pixels"""
    case(ctx, rng, i, big=True)


def difference(ctx, rng, i):
    """scaling of difference data, of one and of two videos"""
    N = int(rng.integers(6, 40))
    n = int(rng.integers(3, N + 1))
    shape = gen.frame_shape(rng, 10, dims=(1, 2, 2))
    amp = float(rng.choice([1e-4, 1.0, 1e4]))
    f1 = amp * (rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape) + rng.normal(size=shape))
    auto = bool(rng.random() < 0.4)
    f2 = 2 * f1 + amp * rng.normal(size=(N,) + shape)
    level = 2 if auto else int(rng.choice([2, 6]))
    data = core.acorr(f1, n=n, method="diff", norm=level) if auto else core.ccorr(f1, f2, n=n, method="diff", norm=level)
    bg, var = core.stats(f1) if auto else core.stats(f1, f2)
    if auto and shape[0] == 2:
        bg, var = (bg, bg), (var, var)
    v1, v2 = var if isinstance(var, tuple) else (var, var)
    V = (v1 + v2) / 2
    mask = rng.random(shape) < 0.6 if rng.random() < 0.4 else None
    sel = (lambda a: a) if mask is None else (lambda a: a[mask])
    norm = level
    ctx.info = dict(auto=auto, frames=N, n=n, shape=shape, norm=norm, amplitude=amp, masked=mask is not None)
    for mode in ("diff", "corr"):
        a = nm.normalize(data, bg, var, norm=norm, mode=mode, mask=mask)
        b = nm.normalize(data, bg, var, norm=norm, mode=mode, mask=mask, scale=True)
        ctx.close(b * sel(V)[..., None], a, "scaled-difference", rtol=1e-9, scale=float(V.max()) * 10)
    ctx.mark("difference", auto, norm, mask is not None, amp)


def levels(ctx, rng, i):
    """weighted normalization of multi-level data: linear and levels each as a stack of their own"""
    auto = bool(rng.random() < 0.4)
    N, shape = int(rng.choice([32, 64, 80])), (3, 4)
    f1 = rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape)
    f2 = 2 * f1 + rng.normal(size=(N,) + shape)
    data = multitau.acorr_multi(f1, level_size=8) if auto else multitau.ccorr_multi(f1, f2, level_size=8)
    bg, var = core.stats(f1) if auto else core.stats(f1, f2)
    norm = int(rng.choice([3, 7, 11, 15]))
    kw = dict(norm=norm, mode=str(rng.choice(["corr", "diff"])), scale=bool(rng.random() < 0.5))
    ctx.info = dict(auto=auto, frames=N, kwargs=kw)
    lin, mul = multitau.normalize_multi(data, bg, var, **kw)
    ctx.close(lin, nm.normalize(data[0], bg, var, **kw), "levels", rtol=1e-12)
    for j in range(len(data[1][1])):
        one = tuple(None if x is None else x[j] for x in data[1])
        w = nm.normalize(one, bg, var, **kw)
        if (one[1] > 0).all():
            ctx.close(mul[j], w, "levels", rtol=1e-9, scale=100.0)
    ctx.mark("levels", auto, N, norm, kw["mode"], kw["scale"])


def helpers(ctx, rng, i):
    shape = gen.frame_shape(rng, 12, dims=(1, 2, 2))
    if shape[0] == 2:
        shape = (3,) + shape[1:]
    ints = bool(rng.random() < 0.3)
    mag = 1.0 if ints else float(rng.choice([1e-9, 1.0, 1.0, 1e9]))
    if rng.random() < 0.2:
        shape = (int(rng.integers(20, 60)), int(rng.integers(20, 60)))
    mk = (lambda: rng.integers(1, 30, shape)) if ints else (lambda: mag * rng.uniform(0.1, 30, shape))
    v1, v2 = mk(), mk()
    mask = rng.random(shape) < 0.5 if rng.random() < 0.4 else None
    sel = (lambda a: a) if mask is None else (lambda a: a[mask])
    ctx.info = dict(shape=shape, integer=ints, magnitude=mag)
    pair = tuple if rng.random() < 0.7 else list
    ctx.close(nm.scale_factor(pair((v1, v2)), mask), sel((v1 + v2) / 2), "helpers", rtol=1e-13)
    ctx.close(nm.scale_factor(v1, mask), sel(v1), "helpers", rtol=1e-13)
    ctx.raises(ValueError, lambda: nm.scale_factor(None), "helpers")
    ctx.close(nm.noise_delta(pair((v1, v2)), mask), sel((v2 - v1) / (v1 + v2)), "helpers", rtol=1e-12)
    ctx.close(nm.noise_delta(pair((v1, v2)), mask, scale=False), sel((v2 - v1) / 2), "helpers", rtol=1e-12)
    z = nm.noise_delta(v1, mask)
    ctx.check(np.shape(z) == sel(v1).shape and not np.any(z), "helpers")
    w = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    I = float(rng.uniform(0.1, 100))
    ctx.close(nm.noise_level(w, I), (np.abs(w) ** 2).sum() * I, "helpers", rtol=1e-12)
    # noise fraction of a signal with white noise
    n = int(rng.integers(3, 20))
    g = rng.uniform(-0.5, 1.5, shape + (n,)) * v1[..., None]
    ctx.close(nm.noise_mean(g, v1), np.clip(1 - g[..., 0] / v1, 0, 1), "helpers", rtol=1e-12, scale=1.0)
    ctx.close(nm.noise_mean(g, v1, mode="diff"), np.clip(g[..., 0] / v1 / 2, 0, 1), "helpers", rtol=1e-12, scale=1.0)
    ctx.raises(ValueError, lambda: nm.noise_mean(g, v1, mode="foo"), "helpers")
    d = rng.uniform(-0.9, 0.9, shape)
    for mode in ("corr", "diff"):
        for pre in (True, False):
            ctx.close(nm.weight_from_data(g, d, v1, mode=mode, pre_filter=pre), weight_of(g, d, v1, mode, pre), "helpers", rtol=1e-10, scale=1.0)
        gz = g + 1j * rng.normal(size=g.shape)
        if mode == "corr":
            ctx.close(nm.weight_from_data(gz, d, v1, mode=mode), weight_of(gz, d, v1, mode), "helpers", rtol=1e-10, scale=1.0)
    ctx.close(nm.weight_from_data(g), weight_of(g, np.zeros(()), np.ones(()), "corr"), "helpers", rtol=1e-10, scale=1.0)
    ctx.raises(ValueError, lambda: nm.weight_from_data(g, d, v1, mode="foo"), "helpers")
    x, y, ww = rng.normal(size=(3,) + shape)
    ctx.close(nm.weighted_sum(x, y, ww), x * ww + (1 - ww) * y, "helpers", rtol=1e-12, scale=10.0)
    xz, yz, wz = x + 1j * y, y - 2j * x, ww + 1j * x
    ctx.close(nm.weighted_sum(xz, yz, wz), combine(xz, yz, wz), "helpers", rtol=1e-12, scale=30.0)
    # take_data keeps counts, selects everything else
    m = rng.random(shape) < 0.5
    tup = (g, np.arange(n), None, 2 * g, g + 1)
    t = nm.take_data(tup, m)
    ctx.check(t[2] is None and np.array_equal(t[1], np.arange(n)), "helpers")
    for k in (0, 3, 4):
        ctx.equal(t[k], tup[k][m], "helpers")
    ctx.mark("helpers", shape, ints, mask is not None)


def optimal(ctx, rng, i):
    """the weights are those that minimize the predicted standard deviation of the weighted sum"""
    k = 40
    # correlation is bounded by the two variances: |g| <= sqrt(1 - delta^2)
    d = rng.uniform(-0.9, 0.9, k)
    g = rng.uniform(-0.9, 0.9, k) * np.sqrt(1 - d ** 2)
    w = nm.weight_from_g(g, d)
    gw, dw = rng.normal(size=k) * 10.0 ** rng.uniform(-6, 3, k), rng.uniform(-1, 1, k)
    ctx.close(nm.weight_from_g(gw, dw), wg(gw, dw), "weight-from-g", rtol=1e-12, scale=0.0)
    ctx.info = dict(g=g[:3], delta=d[:3])
    ctx.close(w, wg(g, d), "weight-from-g", rtol=1e-12, scale=1.0)
    ctx.close(nm.weight_from_d(2 * (1 - g), d), w, "weight-from-d", rtol=1e-10, scale=1.0)
    s = nm.sigma_weighted(w, g + 0j, d)
    ctx.close(s ** 2, 0.5 * (w ** 2 * (g ** 2 + 1 + d ** 2) - 4 * w * g + g ** 2 + 1 - d ** 2), "sigma", rtol=1e-10, scale=4.0)
    for _ in range(6):
        o = w + rng.normal(size=k) * rng.choice([1e-3, 0.1, 1])
        so = nm.sigma_weighted(o, g + 0j, d)
        good = np.isfinite(s) & np.isfinite(so)
        ctx.check(bool((s[good] <= so[good] + 1e-12).all()), "optimal", "a weight with smaller deviation exists")
    b1 = rng.normal(size=k) + 1j * rng.normal(size=k)
    b2 = rng.normal(size=k) + 1j * rng.normal(size=k)
    gz = g + 1j * rng.uniform(-0.3, 0.3, k) * np.sqrt(1 - d ** 2)
    wp = nm.weight_prime_from_g(gz, d, b1, b2)
    ctx.close(nm.weight_prime_from_d(2 * (1 - gz), d, b1, b2), wp, "weight-prime-from-d", rtol=1e-9, scale=float(np.abs(wp).max()))
    ctx.close(nm.weight_prime_from_g(g + 0j, d, 0 * b1, 0 * b2), w, "weight-prime-without-background", rtol=1e-10, scale=1.0)
    sp = nm.sigma_prime_weighted(wp, gz, d, b1, b2)
    ctx.close(nm.sigma_prime_weighted(w, g + 0j, d, 0 * b1, 0 * b2), s, "sigma-prime-without-background", rtol=1e-9, scale=1.0)
    for _ in range(6):
        o = wp + rng.normal(size=k) * rng.choice([1e-3, 0.1, 1])
        so = nm.sigma_prime_weighted(o, gz, d, b1, b2)
        good = np.isfinite(sp) & np.isfinite(so)
        ctx.check(bool((sp[good] <= so[good] + 1e-9).all()), "optimal", "a weight with smaller deviation exists (background)")
    # from data
    n = 12
    c = np.sort(rng.uniform(0, 1, (3, n)))[:, ::-1].copy()
    sf = rng.uniform(1, 3, 3)
    dl = rng.uniform(-0.5, 0.5, 3)
    for mode in ("corr", "diff"):
        x = c * sf[:, None] if mode == "corr" else 2 * sf[:, None] * (1 - c)
        r = nm.weight_prime_from_data(x, b1[:3], b2[:3], dl, sf, mode=mode, pre_filter=False)
        ctx.close(r, nm.weight_prime_from_g(c + 0j, dl[:, None], b1[:3, None], b2[:3, None]), "weight-prime-from-data", rtol=1e-9, scale=10.0)
        r = nm.weight_prime_from_data(x, b1[:3], b2[:3], dl, sf, mode=mode)
        y = ref.denoise(x)
        y = np.minimum.accumulate(y, -1) if mode == "corr" else np.maximum.accumulate(y, -1)
        y = ref.denoise(np.clip(y, 0, sf[:, None] * (1 if mode == "corr" else 2))) / sf[:, None]
        y = y if mode == "corr" else 1 - y / 2
        ctx.close(r, nm.weight_prime_from_g(y + 0j, dl[:, None], b1[:3, None], b2[:3, None]), "weight-prime-from-data", rtol=1e-9, scale=10.0)
    ctx.mark("optimal", i)


def unsupported(ctx, rng, i):
    """weighted norms need both squares and, with subtraction, sums"""
    N = 16
    f1 = rng.normal(size=(N, 3, 3)) + 1j * rng.normal(size=(N, 3, 3))
    f2 = rng.normal(size=(N, 3, 3)) + 1j * rng.normal(size=(N, 3, 3))
    bg, var = core.stats(f1, f2)
    ctx.info = dict(case=i)
    for level in (1, 2, 3, 5, 6):
        d = core.ccorr(f1, f2, n=8, norm=level)
        for norm in (3, 7, 11, 15):
            have = 1 | (level & 2) | ((level & 4) and 12)
            f = lambda: nm.normalize(d, bg, var, norm=norm)
            if norm & have == norm:
                f()
                ctx.count("supported")
            else:
                ctx.raises(ValueError, f, "unsupported", "norm %d of level %d" % (norm, level))
    d = core.ccorr(f1, f2, n=8, method="diff")
    for norm in (3, 7, 11, 15):
        ctx.raises(ValueError, lambda: nm.normalize(d, bg, var, norm=norm), "unsupported", "difference data")
    d = core.ccorr(f1, f2, n=8, norm=7)
    ctx.raises(ValueError, lambda: nm.normalize(d, bg, None, norm=7), "unsupported", "no variance")
    ctx.mark("unsupported", i)


STREAMS = {"weighted": dict(fn=case, quick=900, thorough=15000), "large": dict(fn=large, quick=60, thorough=800), "difference": dict(fn=difference, quick=120, thorough=1500), "levels": dict(fn=levels, quick=100, thorough=1500), "helpers": dict(fn=helpers, quick=60, thorough=1000),
           "optimal": dict(fn=optimal, quick=60, thorough=1000), "unsupported": dict(fn=unsupported, quick=4, thorough=20)}
