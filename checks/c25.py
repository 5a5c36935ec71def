"""C25: a complete analysis equals its definition evaluated on the raw frames"""
import os, tempfile, shutil, warnings
import numpy as np
from vh import ref, gen, multi
from checks import c12, c14, c15
from cddm import core, multitau as mt, norm as nm, video as cv, fft, window, map as cmap, sim, conf

PROP = "C25"
RULE = ("whole analyses (crop, background, window, mask and transform of a raw video, then correlation in memory, from memory-mapped files or streamed, single or multiple tau, normalization, log averaging or merging, and wavevector "
        "selection) of random recordings of one or two cameras, regular or randomly triggered, against a direct evaluation on the raw frames: explicit DFT sums, pair averages per pixel, per-delay weights, pixel-by-pixel selection; distinct by the options of every stage")
ASSUMPTIONS = ["single precision frames are compared at 2e-6", "deeper levels of the multiple-tau algorithm are binned signals and squares, regularly spaced", "1e-9 of the signal power", "streamed irregular delays are spanned by neighbouring chunks"]
FLOORS = {"quick": {"analysis": 600, "curve": 1500, "delays": 600, "live": 50, "paths": 400},
          "thorough": {"analysis": 18000, "curve": 45000, "delays": 18000, "live": 1500, "paths": 12000}}


def estimator(x, y, sx, sy, pairs, auto, norm, cplx, b1, b2, V, scale):
    """normalized value per delay from the pair averages; NaN where there is no pair"""
    out = np.full(x.shape[1:] + (len(pairs),), np.nan, complex)
    for k, (i, j) in enumerate(pairs):
        if len(i) == 0:
            continue
        mx, my, q1, q2 = x[i].mean(0), y[j].mean(0), sx[i].mean(0), sy[j].mean(0)
        c = (np.conj(x[i]) * y[j]).mean(0)
        if auto:
            mx = my = (mx + my) / 2
        if norm & 12:
            # background, or the mean of the frames that form this delay
            p, q = (b1, b2) if norm & 4 else (mx, my)
            c = c - np.conj(p) * my - np.conj(mx) * q + np.conj(p) * q
            q1 = q1 - 2 * (np.conj(p) * mx).real + np.abs(p) ** 2
            q2 = q2 - 2 * (np.conj(q) * my).real + np.abs(q) ** 2
        if norm & 2:
            base = V - (q1 + q2) / 2
            if norm & 12:
                v = base + c.real + 1j * (base + c.imag)
            else:
                v = base + c.real + np.abs(b1 - b2) ** 2 / 2 + 1j * (base + c.imag + np.abs(b1 + 1j * b2) ** 2 / 2)
        else:
            v = c if norm & 12 else c - np.conj(b1) * b2
        out[..., k] = v / V if scale else v
    return out if cplx else out.real


def value(f1, f2, s1, s2, t1, t2, n, norm, cplx, b1, b2, V, scale):
    auto = f2 is None
    pairs = ref.pairs_auto(t1, n) if auto else ref.pairs_cross(t1, t2, n, cplx)
    return estimator(f1, f1 if auto else f2, s1, s1 if auto else s2, pairs, auto, norm, cplx, b1, b2, V, scale)


def case(ctx, rng, i):
    auto = bool(rng.random() < 0.4)
    cams = 1 if auto else 2
    path = str(rng.choice(["memory", "mapped", "stream", "stream"]))
    tau = str(rng.choice(["multi", "multi", "linear"]))
    method = str(rng.choice(["corr", "fft", "diff"], p=[0.4, 0.4, 0.2]))
    cplx = bool(rng.random() < 0.25) and method != "diff"
    if method == "diff":
        level = 2 if auto else int(rng.choice([2, 6]))
        norm = level if rng.random() < 0.5 else 2
    else:
        level = int(rng.choice([1, 2, 3, 5, 6, 7]))
        ok = [1] + ([2] if level & 2 else []) + ([5, 9, 13] if level & 4 else []) + ([6, 10, 14] if level & 6 == 6 else [])
        if auto and cplx:
            ok = [k for k in ok if k & 1]
        norm = int(rng.choice(ok))
    scale = bool(rng.random() < 0.5)
    libs = [x for x, have in (("numpy", True), ("scipy", conf.SCIPY_INSTALLED), ("pyfftw", conf.PYFFTW_INSTALLED)) if have]
    # ---- the recording
    ls = int(rng.choice([6, 8]))
    period = int(rng.choice([1, 1, 2, 4])) if tau == "multi" else 1
    half = ls * period + int(rng.choice([0, 0, 4]))
    count = half * 2 ** int(rng.choice([0, 1, 2, 3]))
    while count < 2 * ls or count > 200:
        count = count * 2 if count < 2 * ls else count // 2
    if count < half:
        count = half
    N = multi.streamed_length(count, half) if path == "stream" else count
    t1 = t2 = None
    tk = "none"
    if rng.random() < 0.5:
        if period > 1:
            tk = "random"
            if auto:
                t1 = np.asarray(sim.create_random_time(count, period))
                t2 = t1
            else:
                t1, t2 = (np.asarray(x) for x in sim.create_random_times1(count, period // 2))
        else:
            tk = "window"
            t1, t2, _ = multi.two_increasing_times(rng, count, "window")
            if auto:
                t2 = t1
        if path == "stream" and multi.outside_adjacent(t1, t2, ls * period, half):
            t1 = t2 = None
            tk = "none"
    H, W = int(rng.integers(4, 10)), int(rng.integers(4, 10))
    dt = str(rng.choice(["u1", "u2", "f8", "f4"]))
    still = [rng.uniform(20, 60, (H, W)) for _ in range(cams)]
    # correlated scene seen by both cameras
    walk = np.cumsum(rng.normal(size=(N + 1, H, W)), 0)
    raw = []
    for c in range(cams):
        a = still[c] + 3 * walk[:-1] + rng.normal(size=(N, H, W)) * 5
        raw.append(np.clip(np.round(a), 0, 250).astype(dt) if dt[0] == "u" else a.astype(dt))
    # ---- preprocessing, described twice: as cddm's pipeline and as plain formulas
    lib = str(rng.choice(libs))
    old = conf.set_fftlib(lib), conf.set_rfft2lib(lib)
    tmp = None
    try:
        model = [r.astype(float) for r in raw]
        lay = gen.frame_layouts(rng)
        vid = (tuple(lay(r[k]) for r in raw) for k in range(N))
        if path == "stream" and rng.random() < 0.2:
            vid = cv.threaded(vid)
        steps = []
        if rng.random() < 0.3:
            a, b = int(rng.integers(0, 2)), int(rng.integers(0, 2))
            vid = cv.crop(vid, roi=((a, H), (b, W)))
            model = [m[:, a:, b:] for m in model]
            steps.append("crop")
        h, w = model[0].shape[1:]
        if rng.random() < 0.3:
            back = tuple(rng.uniform(0, 20, (h, w)) for _ in range(cams))
            vid = cv.subtract(vid, [back] * N)
            model = [m - b for m, b in zip(model, back)]
            steps.append("subtract")
        if rng.random() < 0.2:
            vid = cv.normalize_video(vid)
            model = [m / m.mean((1, 2), keepdims=True) for m in model]
            steps.append("normalize")
        if rng.random() < 0.4:
            wn = window.blackman((h, w)) if rng.random() < 0.5 else window.gaussian((h, w), 0.5)
            vid = cv.multiply(vid, [(wn,) * cams] * N)
            model = [m * wn for m in model]
            steps.append("window")
        kimax = None if rng.random() < 0.4 else int(rng.integers(1, (h - 1) // 2 + 1))
        kjmax = None if rng.random() < 0.4 else int(rng.integers(1, (w - 1) // 2 + 1))
        # k maps of a spectrum cropped in one direction only are those of an odd sized one
        vid = fft.rfft2(vid, kimax, kjmax)
        F = [np.stack([c15.crop_half(c15.dft2(x), w, kimax, kjmax) for x in m]) for m in model]
        fh, fw = F[0].shape[1], (w if kjmax is None else 2 * kjmax + 1)
        fshape = F[0].shape[1:]
        mask, mhow = None, "none"
        if rng.random() < 0.35:
            mask = rng.random(fshape) < 0.7
            mask.flat[int(rng.integers(mask.size))] = True
            mhow = str(rng.choice(["video", "call"]))
            if mhow == "video":
                vid = cv.mask(vid, mask)
        td = None
        if rng.random() < 0.3:
            size = int(np.prod(fshape)) if mask is None else int(mask.sum())
            td = int(rng.choice([d for d in range(1, size + 1) if size % d == 0]))
        if mhow == "video" and td is not None and path != "stream":
            td = None
        kw = dict(norm=level, method=method, complex=cplx, thread_divisor=td)
        if mhow == "call":
            kw["mask"] = mask
        binning = (0 if method == "diff" else int(rng.integers(0, 2)))
        autobg = path == "stream" and bool(rng.random() < 0.25)
        n_lin = ls * period
        nlevel = None
        if rng.random() < 0.3 and N // 2 >= ls:
            nlevel = int(rng.integers(1, 1 + int(np.log2(N // ls))))
        if tau == "multi":
            kw.update(level_size=ls, period=period, binning=binning, nlevel=nlevel)
        else:
            kw["n"] = n_lin
        G = [g[:, mask] for g in F] if mhow == "video" else F
        if path == "stream":
            kw.update(count=count, chunk_size=half, auto_background=autobg)
            if tau == "multi":
                f = mt.iacorr_multi if auto else mt.iccorr_multi
            else:
                f = core.iacorr if auto else core.iccorr
            # count may exceed the frames processed: the rest is never asked for
            if count > N:
                vid = (fr for part in (vid, iter([tuple(np.zeros(G[0].shape[1:], complex) for _ in range(cams))] * (count - N))) for fr in part)
            data, bg, var = f(vid, t1, **kw) if auto else f(vid, t1, t2, **kw)
            if autobg:
                F = [g - g[:half].mean(0) for g in F]
                ctx.count("live")
        else:
            if path == "mapped":
                tmp = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))
                arrays = cv.asmemmaps(os.path.join(tmp, "v"), vid, N)
            else:
                arrays = cv.asarrays(vid, N)
            bg, var = core.stats(*arrays)
            if tau == "multi":
                data = mt.acorr_multi(arrays[0], t1, **kw) if auto else mt.ccorr_multi(arrays[0], arrays[1], t1, t2, **kw)
            else:
                if mhow == "call" or td is not None:
                    kw.pop("mask", None)
                    kw.pop("thread_divisor")
                    if mhow == "call":
                        mhow, mask = "none", None
                else:
                    kw.pop("thread_divisor")
                data = core.acorr(arrays[0], t1, **kw) if auto else core.ccorr(arrays[0], arrays[1], t1, t2, **kw)
    finally:
        conf.set_fftlib(old[0]), conf.set_rfft2lib(old[1])
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    ctx.info = dict(auto=auto, path=path, tau=tau, method=method, complex=cplx, level=level, norm=norm, scale=scale, frames=N, count=count, chunk=half, level_size=ls, period=period, times=tk,
                    t1=t1, t2=t2, image=(h, w), crop=(kimax, kjmax), steps=steps, mask=mhow, binning=binning, nlevel=nlevel, auto_background=autobg, library=lib, dtype=dt, divisor=td)
    # ---- cddm: normalization, merging, selection
    fold = cplx and not auto
    with np.errstate(all="ignore"):
        if tau == "multi":
            lin, mul = mt.normalize_multi(data, bg, var, norm=norm, scale=scale)
            if cplx:
                x, y = mt.log_merge(lin, mul, fold=fold)
            else:
                x, y = mt.log_merge(lin, mul)
        else:
            y = nm.normalize(data, bg, var, norm=norm, scale=scale)
            size = int(rng.choice([0, 2, 4]))
            if size:
                x, y = mt.log_average(y, size, **(dict(fold=fold) if cplx else {}))
            else:
                y = nm.fold_data(y) if fold else y
                x = np.arange(y.shape[-1])
    x = np.asarray(x)
    # ---- by definition
    f1 = F[0][:N]
    f2 = None if auto else F[1][:N]
    b1, v1 = f1.mean(0), (np.abs(f1 - f1.mean(0)) ** 2).mean(0)
    b2, v2 = (b1, v1) if auto else (f2.mean(0), (np.abs(f2 - f2.mean(0)) ** 2).mean(0))
    V = (v1 + v2) / 2
    # a pixel that does not fluctuate (a real one in a complex plane is fine) has no scaled value
    dead = V < 1e-9 * V.max() if V.max() > 0 else np.ones(V.shape, bool)
    T1 = np.arange(N) if t1 is None else np.asarray(t1)[:N]
    T2 = T1 if t2 is None else np.asarray(t2)[:N]
    s1 = ref.abs2(f1)
    s2 = None if auto else ref.abs2(f2)
    args = (norm, cplx, b1, b2, V, scale)
    with np.errstate(all="ignore"):
        fast = value(f1, f2, s1, s2, T1, T2, n_lin, *args)
        if fold:
            fast = c12.fold0(fast)
        if tau == "multi":
            slow = []
            levels = 0
            while N // 2 ** (levels + 1) >= ls:
                levels += 1
            levels = levels if nlevel is None else min(nlevel, levels)
            for a1, a2, q1, q2 in multi.binned_levels((f1, f2, s1, s2), binning, levels):
                r = np.arange(len(a1))
                v = value(a1, a2, q1, q2, r, r, ls, *args)
                slow.append(c12.fold0(v) if fold else v)
            lev, _ = c12.ref_multilevel(fast, ls, mt.BINNING_MEAN)
            wx, wy = c12.ref_merged(lev)
            tx, ty = list(wx), [wy]
            for l, v in enumerate(slow):
                tx += [q * 2 ** (l + 1) * period for q in range(ls // 2, ls)]
                ty.append(v[..., ls // 2:])
            wx, wy = np.array(tx), np.concatenate(ty, -1)
        elif size:
            wx, wy = c12.ref_merged(c12.ref_multilevel(fast, 2 * size, mt.BINNING_MEAN)[0])
        else:
            wx, wy = np.arange(fast.shape[-1]), fast
    ctx.equal(x, wx, "delays")
    power = max(float(np.abs(f1).max()), float(np.abs(f2).max()) if not auto else 0.0) ** 2
    if scale:
        live = V[~dead]
        power = power / float(live.min()) if live.size else 1.0
    full = y
    if mhow == "video":
        full = np.full(y.shape[:-2] + fshape + y.shape[-1:], np.nan, y.dtype)
        full[mask] = y
    use = np.ones(fshape, bool) if mask is None else mask
    keep = use & ~dead if scale else use
    ctx.shape(full.shape, wy.shape, "analysis")
    # delays that no pair has: 0/0 (or the rounding error of the FFT / 0)
    there = np.isfinite(wy[keep])
    ctx.check(not np.isfinite(full[keep][~there]).any(), "no-data", "a value at a delay without data")
    ctx.close(full[keep][there], wy[keep][there], "analysis", rtol=2e-6 if dt == "f4" else 1e-9, scale=power)
    # ---- wavevectors
    if dead.any() and scale or (cplx and fw % 2 == 0):
        ctx.mark("pixels", auto, path, tau, method, norm, cplx, tk, mhow)
        return
    angle, sector, kstep = c14.params(rng)
    kmap, amap = cmap.fft2_kangle(fh, fw, (h, w))
    m = np.asarray(cmap.fft2_sector_indexmap(kmap, amap, angle, sector, kstep))
    wsel = wy if mask is None else np.where(mask[..., None], wy, np.nan)
    want = c14.ref_select(wsel, m, kmap, True, mask)
    y = np.where(np.isfinite(y), y, np.nan)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = list(cmap.k_select(y, angle, sector=sector, kstep=kstep, shape=(h, w), mask=mask))
    ctx.check(len(got) == len(want), "curve", lambda: "%d wavevectors, expected %d" % (len(got), len(want)))
    for g, idx in zip(got, sorted(want)):
        ctx.check(abs(g[0] - want[idx][0]) <= 1e-12 * max(1, want[idx][0]), "wavevector", lambda: "%r, expected %r" % (g[0], want[idx][0]))
        ctx.close(g[1], want[idx][1], "curve", rtol=2e-6 if dt == "f4" else 1e-9, scale=power)
    ctx.mark(auto, path, tau, method, norm, level, cplx, tk, mhow, scale, "+".join(steps), binning, autobg, lib)


def same_everywhere(ctx, rng, i):
    """one recording, every way of analysing it: the same curves"""
    auto = bool(rng.random() < 0.5)
    H, W = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    ls = 8
    N = ls * 2 ** int(rng.integers(1, 4))
    raw = [np.cumsum(rng.normal(size=(N, H, W)), 0) + rng.normal(size=(H, W)) * 20 for _ in range(1 if auto else 2)]
    ctx.info = dict(auto=auto, frames=N, image=(H, W))
    norm = int(rng.choice([1, 2, 5, 6]))
    window_ = window.hann((H, W))
    vids = lambda: cv.multiply(zip(*raw), [(window_,) * len(raw)] * N)

    def finish(data, bg, var):
        lin, mul = mt.normalize_multi(data, bg, var, norm=norm)
        return mt.log_merge(lin, mul)

    arr = cv.asarrays(fft.rfft2(vids()), N)
    kw = dict(level_size=ls, norm=7, method="corr")
    d = mt.acorr_multi(*arr, **kw) if auto else mt.ccorr_multi(*arr, **kw)
    base = finish(d, *core.stats(*arr))
    ways = {}
    for m in ("corr", "fft"):
        k2 = dict(kw, method=m)
        d = mt.acorr_multi(*arr, **k2) if auto else mt.ccorr_multi(*arr, **k2)
        ways["memory-" + m] = finish(d, *core.stats(*arr))
        f = mt.iacorr_multi if auto else mt.iccorr_multi
        ways["stream-" + m] = finish(*f(fft.rfft2(vids()), count=N, chunk_size=int(rng.choice([c for c in (ls, 2 * ls, 4 * ls) if c <= N])), **k2))
        ways["threaded-" + m] = finish(*f(cv.threaded(fft.rfft2(vids())), count=N, thread_divisor=1, chunk_size=ls, **k2))
    t = np.arange(N)
    d = mt.acorr_multi(*arr, t=t + 5, **kw) if auto else mt.ccorr_multi(*arr, t1=t + 5, t2=t + 5, **kw)
    ways["times"] = finish(d, *core.stats(*arr))
    back = [np.moveaxis(a, 0, 1) for a in arr]
    d = mt.acorr_multi(*back, axis=1, **kw) if auto else mt.ccorr_multi(*back, axis=1, **kw)
    ways["axis"] = finish(d, *core.stats(*arr))
    full = cv.asarrays(fft.fft2(vids()), N)
    d = mt.acorr_multi(*full, **kw) if auto else mt.ccorr_multi(*full, **kw)
    x, y = finish(d, *core.stats(*full))
    ways["fft2"] = (x, y[:, :W // 2 + 1])
    power = max(float(np.abs(a).max()) for a in arr) ** 2
    for name, (x, y) in ways.items():
        ctx.equal(np.asarray(x), np.asarray(base[0]), "paths")
        ctx.close(y, base[1], "paths", rtol=1e-10, scale=power)
    # the same wavevectors from half and full spectra
    ctx.mark("paths", auto, N, norm, H, W)


STREAMS = {"analysis": dict(fn=case, quick=800, thorough=24000), "paths": dict(fn=same_everywhere, quick=60, thorough=2000)}
