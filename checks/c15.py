"""C15: every transformed frame is the DFT of its input frame, cropped as documented"""
import itertools
import numpy as np
from vh import ref, gen
from cddm import fft, window, conf

PROP = "C15"
RULE = ("rfft2_video, fft2_video, crops, normalize_fft, dls and windows on videos of 1-3 cameras, all frame shapes 1..17, every crop from 0 to the maximum, all dtypes and layouts, each installed FFT library, "
        "overwriting allowed or not, frames retained until the end, against the DFT sum computed with explicit matrices; distinct by (function, library, shape, crop, dtype, cameras)")
ASSUMPTIONS = ["frames are two dimensional (extra leading axes only for the crop functions)", "complex frames given to the real transform hold real values", "single precision frames are compared at 2e-5"]
FLOORS = {"quick": {"dft": 3000, "crop": 1500, "retained": 700, "window": 600, "dls": 250, "normalized": 500, "rejected": 200, "input-kept": 700},
          "thorough": {"dft": 40000, "crop": 20000, "retained": 9000, "window": 8000, "dls": 4000, "normalized": 7000, "rejected": 3000, "input-kept": 9000}}

LIBS = ["numpy", "scipy", "pyfftw"]


def setup(ctx):
    global LIBS
    LIBS = [x for x, ok in (("numpy", True), ("scipy", conf.SCIPY_INSTALLED), ("pyfftw", conf.PYFFTW_INSTALLED), ("mkl_fft", conf.MKL_FFT_INSTALLED)) if ok]


def use(lib):
    return conf.set_fftlib(lib), conf.set_rfft2lib(lib)


_M = {}


def dftm(n, sign=-1):
    if (n, sign) not in _M:
        k = np.arange(n)
        _M[n, sign] = np.exp(sign * 2j * np.pi * np.outer(k, k) / n)
    return _M[n, sign]


def dft2(a):
    a = np.asarray(a).astype(complex)
    return dftm(a.shape[-2]) @ a @ dftm(a.shape[-1])


def indices(n, kmax):
    """rows of a full spectrum kept, in order 0..kmax, -kmax..-1"""
    if kmax is None:
        return np.arange(n)
    return np.array([k % n for k in list(range(kmax + 1)) + list(range(-kmax, 0))])


def crop_full(F, kimax, kjmax):
    return F[..., indices(F.shape[-2], kimax), :][..., indices(F.shape[-1], kjmax)]


def crop_half(F, w, kimax, kjmax):
    r = F[..., indices(F.shape[-2], kimax), :]
    return r[..., :(w // 2 if kjmax is None else kjmax) + 1]


DT = ["f8", "f8", "u1", "u2", "i4", "i8", "f4", "c16", "c8", "bool"]


def frame(rng, h, w, dt, real):
    if dt in ("f8", "f4"):
        return rng.normal(size=(h, w)).astype(dt)
    if dt == "bool":
        return rng.random((h, w)) < 0.5
    if dt in ("c16", "c8"):
        a = rng.normal(size=(h, w)) + (0 if real else 1j * rng.normal(size=(h, w)))
        return a.astype(dt)
    return rng.integers(0, 200, (h, w)).astype(dt)


def sizes(rng):
    if rng.random() < 0.03:
        return int(rng.choice([31, 32, 33, 47, 64, 97, 128, 130])), int(rng.choice([31, 32, 33, 47, 64, 97, 128, 130]))
    return (int(rng.integers(1, 9)), int(rng.integers(1, 9))) if rng.random() < 0.7 else (int(rng.integers(1, 18)), int(rng.integers(1, 18)))


def crops(rng, h, w, half):
    ki = None if rng.random() < 0.3 else int(rng.integers(0, h // 2 + 1))
    kj = None if rng.random() < 0.3 else int(rng.integers(0, w // 2 + 1))
    return ki, kj


def videos(ctx, rng, i):
    lib = LIBS[i % len(LIBS)]
    use(lib)
    half = bool(rng.random() < 0.55)
    h, w = sizes(rng)
    dt = str(rng.choice(DT))
    ncam, N = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    ki, kj = crops(rng, h, w, half)
    over = bool(rng.random() < 0.3)
    same = bool(rng.random() < 0.3)       # cameras of different shape are legal
    shp = [(h, w) if c == 0 or not same else (h + int(rng.integers(0, 3)), w + int(rng.integers(0, 3))) for c in range(ncam)]
    frames = [[frame(rng, *shp[c], dt, half) for c in range(ncam)] for _ in range(N)]
    ctx.info = dict(lib=lib, half=half, shapes=shp, dtype=dt, frames=N, kimax=ki, kjmax=kj, overwrite=over)
    keep = [[f.copy() for f in fr] for fr in frames]
    given = [tuple(gen.layout(rng, f) if not over else f for f in fr) for fr in frames]
    if over:
        given = [tuple(f.copy() for f in fr) for fr in frames]
    pulled = []

    def source():
        for k, fr in enumerate(given):
            pulled.append(k)
            yield fr
    src = source() if rng.random() < 0.5 else list(given)
    fn = fft.rfft2_video if half else fft.fft2_video
    if rng.random() < 0.15:
        fn = fft.rfft2 if half else fft.fft2
    kw = {} if (ki is None and kj is None and rng.random() < 0.5) else dict(kimax=ki, kjmax=kj)
    if over:
        kw["overwrite_x"] = True
    it = iter(fn(src, **kw))
    outs, snaps = [], []
    for k in range(N):
        o = next(it)
        outs.append(o)
        snaps.append([np.array(x) for x in o])
        if pulled:
            ctx.check(pulled[-1] == k, "dft", "reads ahead")
    ctx.check(next(it, None) is None, "dft", "more frames than given")
    rtol = 2e-5 if dt in ("f4", "c8") else 1e-12
    for k in range(N):
        ctx.check(len(outs[k]) == ncam, "dft", "cameras")
        for c in range(ncam):
            F = dft2(keep[k][c])
            hh, ww = shp[c]
            want = crop_half(F, ww, ki, kj) if half else crop_full(F, ki, kj)
            sc = float(np.abs(F).max())
            ctx.close(snaps[k][c], want, "dft", rtol=rtol, scale=sc)
            if half:
                ctx.check(np.asarray(outs[k][c]).dtype == conf.CDTYPE, "dtype")
            ctx.equal(outs[k][c], snaps[k][c], "retained")
            if not over:
                ctx.equal(given[k][c], keep[k][c], "input-kept")
    use("numpy")
    ctx.mark("video", lib, half, h, w, ki, kj, dt, ncam, over)


def cropping(ctx, rng, i):
    """every admissible crop of one shape, exact"""
    h, w = sizes(rng)
    lead = tuple(int(x) for x in rng.integers(1, 3, int(rng.integers(0, 3))))
    x = rng.normal(size=lead + (h, w)) + 1j * rng.normal(size=lead + (h, w))
    if rng.random() < 0.2:
        x = x.astype(np.complex64)
    ctx.info = dict(shape=x.shape)
    keep = x.copy()
    combos = list(itertools.product([None] + list(range(h // 2 + 1)), [None] + list(range(max(w // 2, 0) + 1))))
    for q in rng.permutation(len(combos))[:8]:
        ki, kj = combos[q]
        r = fft.fft2_crop(gen.layout(rng, x), ki, kj)
        ctx.equal(r, crop_full(x, ki, kj), "crop")
        # half plane: the width given is that of the half plane data
        if kj is None or kj <= w - 1:
            r = fft.rfft2_crop(gen.layout(rng, x), ki, kj)
            ctx.equal(r, x[..., indices(h, ki), :][..., :(w if kj is None else kj + 1)], "crop")
        ctx.equal(x, keep, "input-kept")
    # beyond the spectrum
    big = h // 2 + 1 + int(rng.integers(0, 3))
    ctx.raises(ValueError, lambda: fft.fft2_crop(x, big, None), "rejected", "kimax")
    ctx.raises(ValueError, lambda: fft.rfft2_crop(x, big, 0), "rejected", "kimax")
    ctx.raises(ValueError, lambda: fft.rfft2_crop(x, None, w + int(rng.integers(0, 3))), "rejected", "kjmax")
    ctx.raises(ValueError, lambda: fft.fft2_crop(x, None, w // 2 + 1 + int(rng.integers(0, 3))), "rejected", "kjmax")
    ctx.mark("crop", h, w, len(lead))


def normalized(ctx, rng, i):
    h, w = sizes(rng)
    ncam, N = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    c8 = bool(rng.random() < 0.2)
    fr = [[(rng.normal(size=(h, w)) + 1j * rng.normal(size=(h, w))).astype(np.complex64 if c8 else complex) for _ in range(ncam)] for _ in range(N)]
    keep = [[f.copy() for f in x] for x in fr]
    inplace = bool(rng.random() < 0.4)
    dtype = None if inplace or rng.random() < 0.6 else rng.choice(["c8", "c16"])
    ctx.info = dict(shape=(h, w), inplace=inplace, dtype=str(dtype))
    kw = {} if not inplace and dtype is None and rng.random() < 0.5 else dict(inplace=inplace, dtype=None if dtype is None else np.dtype(str(dtype)))
    out = list(fft.normalize_fft(iter(tuple(x) for x in fr), **kw))
    ctx.check(len(out) == N, "normalized", "frames")
    rt = 1e-6 if c8 or str(dtype) == "c8" else 1e-14
    for k in range(N):
        ctx.check(len(out[k]) == ncam, "normalized")
        for c in range(ncam):
            want = keep[k][c].astype(complex) / complex(keep[k][c][0, 0])
            ctx.close(out[k][c], want, "normalized", rtol=rt)
            if inplace:
                ctx.check(out[k][c] is fr[k][c] or np.shares_memory(out[k][c], fr[k][c]), "normalized", "not in place")
            else:
                ctx.equal(fr[k][c], keep[k][c], "input-kept")
            if dtype is not None:
                ctx.check(out[k][c].dtype == np.dtype(str(dtype)), "normalized", "dtype")
    ctx.mark("norm", h, w, ncam, inplace, str(dtype), c8)


def windows(ctx, rng, i):
    h, w = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    alpha = float(rng.choice([0, 1, 0.5, 0.1, float(rng.uniform(0, 1))]))
    sigma = float(rng.uniform(0.05, 3))
    ctx.info = dict(shape=(h, w), alpha=alpha, sigma=sigma)
    y = (np.arange(h) - (h - 1) / 2) / (h / 2)
    x = (np.arange(w) - (w - 1) / 2) / (w / 2)
    r = np.hypot(y[:, None], x[None, :])
    edge = np.abs(r - 1) < 1e-12

    def tk(a):
        if a == 0:
            return np.where(r >= 1, 0., 1.)
        return np.where(r >= 1, 0., np.where(r > 1 - a, 0.5 * (1 - np.cos(np.pi * (r - 1) / a)), 1.))
    want = {"blackman": np.where(r >= 1, 0, 0.42 + 0.5 * np.cos(np.pi * r) + 0.08 * np.cos(2 * np.pi * r)),
            "gaussian": np.exp(-r ** 2 / (2 * sigma ** 2)), "tukey": tk(alpha), "hann": np.where(r >= 1, 0, 0.5 * (1 + np.cos(np.pi * r)))}
    args = {"blackman": (), "gaussian": (sigma,), "tukey": (alpha,), "hann": ()}
    for name, ww in want.items():
        f = getattr(window, name)
        out = np.full((h, w), 7.0) if rng.random() < 0.5 else None
        g = f((h, w), *args[name]) if out is None else f((h, w), *args[name], out=out)
        if out is not None:
            ctx.check(g is out, "window", "out")
        g = np.asarray(g)
        ctx.check(g.dtype == conf.FDTYPE, "window", "dtype")
        ctx.close(np.where(edge, 0, g), np.where(edge, 0, ww), "window", rtol=1e-12, scale=1.0)
        ctx.close(g, g[::-1, ::-1], "window", rtol=1e-12, scale=1.0)
        ctx.check(bool((g >= -1e-12).all() and (g <= 1 + 1e-12).all()), "window", "range")
    ctx.raises(ValueError, lambda: window.gaussian((h, w), -sigma if i % 2 else 0.), "rejected", "sigma")
    ctx.raises(ValueError, lambda: window.tukey((h, w), 1 + sigma if i % 2 else -sigma), "rejected", "alpha")
    ctx.mark("window", h, w, round(alpha, 2))


def light_scattering(ctx, rng, i):
    lib = LIBS[i % len(LIBS)]
    use(lib)
    h, w = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    f = frame(rng, h, w, str(rng.choice(["f8", "f8", "u1", "i4", "c16"])), False)
    many = bool(rng.random() < 0.5)
    nk = int(rng.integers(1, 4)) if many else 1
    kv = np.stack([rng.integers(-(h // 2), h // 2 + 1, nk), rng.integers(-(w // 2), w // 2 + 1, nk)], -1)
    kv = np.clip(kv, [-h, -w], [h - 1, w - 1])
    win = rng.random((h, w)) if not (many and rng.random() < 0.3) else rng.random((nk, h, w))
    ki, kj = crops(rng, h, w, False)
    ctx.info = dict(lib=lib, shape=(h, w), kvec=kv, kimax=ki, kjmax=kj, window=win.shape)
    y, x = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    want = []
    for q in range(nk):
        wq = win if win.ndim == 2 else win[q]
        psf = wq * np.exp(-2j * np.pi * (kv[q, 0] * y / h + kv[q, 1] * x / w))
        if ki is None and kj is None:
            # circular convolution in real space
            o = np.zeros((h, w), complex)
            for p in range(h):
                for s in range(w):
                    o += f[p, s] * np.roll(psf, (p, s), (0, 1))
        else:
            G = crop_full(dft2(f) * dft2(psf), ki, kj)
            o = dftm(G.shape[0], 1) @ G @ dftm(G.shape[1], 1) / G.size
        want.append(o)
    want = np.array(want) if many else want[0]
    keep = f.copy()
    g = fft.dls(f, win, kv if many else kv[0], kimax=ki, kjmax=kj)
    sc = float(np.abs(f.astype(complex)).max() * h * w)
    ctx.close(g, want, "dls", rtol=1e-12, scale=sc)
    out = list(fft.dls_video(((f, f * 2) for _ in range(3)), win, kv if many else kv[0], kimax=ki, kjmax=kj))
    ctx.check(len(out) == 3 and all(len(o) == 2 for o in out), "dls")
    for o in out:
        ctx.close(o[0], want, "dls", rtol=1e-12, scale=sc)
        if f.dtype != np.uint8:
            ctx.close(o[1], 2 * want, "dls", rtol=1e-12, scale=sc)
    ctx.equal(f, keep, "input-kept")
    use("numpy")
    ctx.mark("dls", lib, h, w, many, ki, kj)


STREAMS = {"videos": dict(fn=videos, quick=700, thorough=10000), "cropping": dict(fn=cropping, quick=200, thorough=3000), "normalized": dict(fn=normalized, quick=160, thorough=2500),
           "windows": dict(fn=windows, quick=160, thorough=2500), "dls": dict(fn=light_scattering, quick=150, thorough=2500)}
