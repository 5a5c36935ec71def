"""Catalogue of public operations with random valid arguments.

build(rng) draws one call: (name, fn, args, kwargs). Nothing in it is random afterwards: calling fn(*args, **kwargs)
again must give the same result. Used by the properties about histories, bounds and configurations.
"""
import numpy as np
from . import gen, multi
from cddm import conf, core, norm as nm, multitau as mt, map as mp, fft, window, avg, video, sim


def cvals(rng, shape, kind=None):
    k = kind or str(rng.choice(["c16", "c16", "c16", "f8", "c8", "i8", "u1"]))
    return gen.values(rng, shape, k)[0]


def smooth(rng, shape, cplx=False):
    """well conditioned, decaying along the last axis"""
    n = shape[-1]
    a = (1 + rng.random(shape[:-1] + (1,))) * np.exp(-np.arange(n) / (2. + n / 3.)) + 0.02 * rng.random(shape) + 0.1
    if cplx:
        a = a + 0.1j * rng.random(shape)
    return a


def dims(rng, small):
    N = int(rng.integers(1, 5)) if small else int(rng.integers(2, 25))
    shape = gen.frame_shape(rng, 12)
    n = None if rng.random() < 0.3 else int(rng.integers(1, N + (6 if small else 3)))
    return N, shape, n


def tt(rng, N, small, distinct=False):
    if rng.random() < 0.4:
        return None
    t, _ = gen.times(rng, N, distinct=distinct)
    if small and rng.random() < 0.3:
        t = t * int(rng.integers(1, 100)) - int(rng.integers(0, 2000))
    return t


def _times(rng, N, small, distinct):
    if rng.random() < 0.4:
        return None, None
    return tuple(t if t is not None else np.arange(N) for t in (tt(rng, N, small, distinct), tt(rng, N, small, distinct)))


def _pair(rng, small, distinct=False):
    N, shape, n = dims(rng, small)
    kind = str(rng.choice(["c16", "c16", "f8", "c8"]))
    f1, f2 = cvals(rng, (N,) + shape, kind), cvals(rng, (N,) + shape, kind)
    axis = int(rng.integers(0, len(shape) + 1)) if rng.random() < 0.4 else 0
    return N, shape, n, np.ascontiguousarray(gen.put_axis(f1, axis)), np.ascontiguousarray(gen.put_axis(f2, axis)), axis, *_times(rng, N, small, distinct)


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def kernel_kw(rng, n, axis, cplx=True, align=True):
    kw = dict(n=n, axis=axis)
    if align and rng.random() < 0.5:
        kw["align"] = True
    if cplx and rng.random() < 0.4:
        kw["complex"] = True
    return kw


@op
def cross_correlate(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small)
    return core.cross_correlate, (f1, f2, t1, t2), kernel_kw(rng, n, ax)


@op
def cross_difference(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small)
    return core.cross_difference, (f1, f2, t1, t2), kernel_kw(rng, n, ax, False)


@op
def auto_correlate(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small, True)
    return core.auto_correlate, (f1, t1), kernel_kw(rng, n, ax)


@op
def auto_difference(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small, True)
    return core.auto_difference, (f1, t1), kernel_kw(rng, n, ax, False)


@op
def cross_fft(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, False, True)
    return core.cross_correlate_fft, (f1, f2, t1, t2), kernel_kw(rng, n, ax, True, False)


@op
def auto_fft(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, False, True)
    return core.auto_correlate_fft, (f1, t1), kernel_kw(rng, n, ax, True, False)


@op
def cross_sum(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small)
    kw = kernel_kw(rng, n, ax)
    kw["time_inversion"] = bool(rng.random() < 0.5)
    return core.cross_sum, (f1, t1, t2 if t1 is not None else None), kw


@op
def auto_sum(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small, True)
    return core.auto_sum, (f1, t1), kernel_kw(rng, n, ax, False)


@op
def sum_fft(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, False, True)
    if t1 is None:
        t1 = t2 = np.arange(N)
    if rng.random() < 0.5:
        return core.auto_sum_fft, (f1, t1), dict(axis=ax, n=n)
    return core.cross_sum_fft, (f1, t1, t2), dict(axis=ax, n=n, time_inversion=bool(rng.random() < 0.5), complex=bool(rng.random() < 0.3))


@op
def counts(rng, small=False):
    N = int(rng.integers(1, 40))
    t1, t2 = gen.times(rng, N, distinct=True)[0], gen.times(rng, N, distinct=True)[0]
    n = int(rng.integers(1, 60))
    if rng.random() < 0.5:
        return core.auto_count, (t1,), dict(n=n)
    return core.cross_count, (t1, t2), dict(n=n, complex=bool(rng.random() < 0.4))


def corr_kw(rng, auto):
    method = str(rng.choice(["corr", "fft", "diff"]))
    norm = int(rng.choice([1, 2, 3, 5, 6, 7])) if method != "diff" else (2 if auto else int(rng.choice([2, 6])))
    cplx = bool(rng.random() < 0.3) and method != "diff"
    return dict(method=method, norm=norm, **(dict(complex=True) if cplx else {}))


@op
def ccorr(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small, True)
    kw = corr_kw(rng, False)
    if kw["method"] == "fft" and small:
        t1 = t2 = None
    if kw["norm"] & 2 and kw["method"] != "diff" and rng.random() < 0.4:
        kw["f1s"], kw["f2s"] = (np.abs(f).astype(float) ** 2 + 1 for f in (f1, f2))
    return core.ccorr, (f1, f2, t1, t2), dict(n=n, axis=ax, align=bool(rng.random() < 0.5), **kw)


@op
def acorr(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small, True)
    kw = corr_kw(rng, True)
    if kw["method"] == "fft" and small:
        t1 = None
    if kw["norm"] & 2 and kw["method"] != "diff" and rng.random() < 0.4:
        kw["fs"] = np.abs(f1).astype(float) ** 2 + 1
    return core.acorr, (f1, t1), dict(n=n, axis=ax, align=bool(rng.random() < 0.5), **kw)


def recording(rng, cams, nmin=8, nmax=50):
    N = int(rng.integers(nmin, nmax))
    h, w = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    st = [rng.integers(-9, 10, (N, h, w)) + 1j * rng.integers(-9, 10, (N, h, w)) + 3 for _ in range(cams)]
    if rng.random() < 0.3:
        st = [s.real.copy() for s in st]
    return N, (h, w), st


def iter_kw(rng, cams, shape):
    method = str(rng.choice(["corr", "diff", "fft"]))
    if method == "diff":
        norm = 2 if cams == 1 else int(rng.choice([2, 6]))
    else:
        norm = int(rng.choice([1, 2, 3, 5, 7]))
    kw = dict(method=method, norm=norm)
    if method != "diff" and rng.random() < 0.25:
        kw["complex"] = True
    if rng.random() < 0.3:
        kw["auto_background"] = True
    if rng.random() < 0.3:
        m = rng.random(shape) < 0.7
        m.ravel()[0] = True
        kw["mask"] = m
    if rng.random() < 0.3:
        kw["mode"] = "partial"
    return kw


@op
def iccorr(rng, small=False):
    N, s, st = recording(rng, 2)
    t1, t2, _ = multi.two_increasing_times(rng, N)
    kw = iter_kw(rng, 2, s)
    n = int(rng.choice([2, 4, 8, 16] if N > 16 else [2, 4]))
    return core.iccorr, ([tuple(x[k] for x in st) for k in range(N)], t1, t2), dict(n=n, **{k: v for k, v in kw.items() if k != "mode"})


@op
def iacorr(rng, small=False):
    N, s, st = recording(rng, 1)
    t, _ = multi.increasing_times(rng, N)
    kw = iter_kw(rng, 1, s)
    n = int(rng.choice([2, 4, 8, 16] if N > 16 else [2, 4]))
    fr = [x for x in st[0]] if rng.random() < 0.5 else [(x,) for x in st[0]]
    return core.iacorr, (fr, t), dict(n=n, **{k: v for k, v in kw.items() if k != "mode"})


@op
def iccorr_multi(rng, small=False):
    N, s, st = recording(rng, 2, 24, 90)
    t1, t2, _ = multi.two_increasing_times(rng, N, "window")
    kw = iter_kw(rng, 2, s)
    kw.pop("mode", None)
    if kw["method"] == "fft":
        kw["method"] = "corr"
    return mt.iccorr_multi, ([tuple(x[k] for x in st) for k in range(N)], t1, t2), dict(level_size=8, chunk_size=8, **kw)


@op
def iacorr_multi(rng, small=False):
    N, s, st = recording(rng, 1, 24, 90)
    kw = iter_kw(rng, 1, s)
    kw.pop("mode", None)
    if kw["method"] == "fft":
        kw["method"] = "corr"
    return mt.iacorr_multi, ([x for x in st[0]], np.arange(N)), dict(level_size=8, chunk_size=8, **kw)


@op
def ccorr_multi(rng, small=False):
    N, s, st = recording(rng, 2, 12, 90)
    kw = corr_kw(rng, False)
    if kw["norm"] & 4 and kw["norm"] & 2 and kw["method"] != "diff":
        kw["norm"] = 3
    if rng.random() < 0.3:
        m = rng.random(s) < 0.7
        m.ravel()[0] = True
        kw["mask"] = m
    return mt.ccorr_multi, (st[0], st[1]), dict(level_size=int(rng.choice([6, 8, 16])) if N > 20 else 6, binning=0 if kw['method'] == 'diff' else int(rng.choice([0, 1])), **kw)


@op
def acorr_multi(rng, small=False):
    N, s, st = recording(rng, 1, 12, 90)
    kw = corr_kw(rng, True)
    if kw["norm"] & 4 and kw["norm"] & 2 and kw["method"] != "diff":
        kw["norm"] = 3
    return mt.acorr_multi, (st[0],), dict(level_size=int(rng.choice([6, 8, 16])) if N > 20 else 6, binning=0 if kw['method'] == 'diff' else int(rng.choice([0, 1])), **kw)


def corr_data(rng, auto, cplx=False, norm=7, method="corr", n=None, shape=None):
    N = int(rng.integers(8, 30))
    shape = shape or (int(rng.integers(3, 6)), int(rng.integers(1, 4)))
    f1 = np.cumsum(rng.normal(size=(N,) + shape), axis=0) * 0.3 + rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape) + 2
    f2 = f1 + 0.4 * (rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape))
    n = n or int(rng.integers(4, 9))
    if auto:
        return core.acorr(f1, n=n, norm=norm, method=method, complex=cplx), core.stats(f1), shape
    return core.ccorr(f1, f2, n=n, norm=norm, method=method, complex=cplx), core.stats(f1, f2), shape


@op
def normalize(rng, small=False):
    auto, cplx = bool(rng.random() < 0.4), bool(rng.random() < 0.25)
    data, (bg, var), shape = corr_data(rng, auto, cplx)
    if rng.random() < 0.2 and not auto:
        data, (bg, var), shape = corr_data(rng, False, False, 6, "diff")
        norm = int(rng.choice([2, 6]))
    else:
        norm = int(rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 15]))
    kw = dict(norm=norm, mode=str(rng.choice(["corr", "diff"])), scale=bool(rng.random() < 0.5))
    if rng.random() < 0.3:
        m = rng.random(shape) < 0.6
        m.ravel()[1] = True
        kw["mask"] = m
    return core.normalize, (data, bg, var), kw


@op
def normalize_multi(rng, small=False):
    N = int(rng.integers(20, 70))
    shape = (3, 2)
    f = [np.cumsum(rng.normal(size=(N,) + shape), axis=0) * 0.3 + rng.normal(size=(N,) + shape) + 1j * rng.normal(size=(N,) + shape) + 2 for _ in range(2)]
    f[1] = f[0] + 0.4 * f[1]
    norm = int(rng.choice([1, 2, 3]))
    data = mt.ccorr_multi(f[0], f[1], level_size=8, norm=norm)
    bg, var = core.stats(f[0], f[1])
    return mt.normalize_multi, (data, bg, var), dict(norm=norm, mode=str(rng.choice(["corr", "diff"])), scale=bool(rng.random() < 0.5))


@op
def stats(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small)
    return (core.stats, (f1,), dict(axis=ax)) if rng.random() < 0.5 else (core.stats, (f1, f2), dict(axis=ax))


@op
def subtract_background(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small)
    f1 = f1.astype(complex)
    kw = dict(axis=ax)
    if rng.random() < 0.5:
        kw["return_bg"] = True
    elif rng.random() < 0.5:
        kw["bg"] = f1.mean(axis=ax) + 1
    return core.subtract_background, (f1,), kw


@op
def take_data(rng, small=False):
    data, (bg, var), shape = corr_data(rng, bool(rng.random() < 0.5))
    m = rng.random(shape) < 0.6
    return nm.take_data, (data, m), {}


@op
def norm_helpers(rng, small=False):
    shape = (int(rng.integers(3, 6)), int(rng.integers(1, 5)))
    n = int(rng.integers(5, 14))
    c = smooth(rng, shape + (n,), bool(rng.random() < 0.3))
    v = (1 + rng.random(shape), 1 + rng.random(shape))
    bg = (rng.random(shape) + 1j * rng.random(shape), rng.random(shape) + 1j * rng.random(shape))
    m = rng.random(shape) < 0.6 if rng.random() < 0.4 else None
    k = int(rng.integers(0, 6))
    if k == 0:
        return nm.scale_factor, (v if rng.random() < 0.6 else v[0],), dict(mask=m)
    if k == 1:
        return nm.noise_delta, (v,), dict(mask=m)
    if k == 2:
        return nm.noise_mean, (c.real.copy(),), dict(scale_factor=v[0])
    if k == 3:
        return nm.weight_from_data, (c,), dict(scale_factor=v[0], delta=v[1] - 1, mode=str(rng.choice(["corr", "diff"])))
    if k == 4:
        return nm.weight_prime_from_data, (c.real.copy(),) + bg, dict(scale_factor=v[0], mode=str(rng.choice(["corr", "diff"])))
    return nm.noise_level, (rng.random(shape), float(rng.integers(1, 90))), {}


@op
def phases(rng, small=False):
    n = 2 * int(rng.integers(2, 9)) - 1
    d = smooth(rng, (int(rng.integers(1, 4)), n), True) * np.exp(1j)
    k = int(rng.integers(0, 3))
    if k == 0:
        return nm.shift_data, (d,), {}
    if k == 1:
        return nm.equalize_data, (d,), {}
    return nm.fold_data, (d,), dict(mode=int(rng.choice([0, 1, -1])))


@op
def reshaping(rng, small=False):
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small)
    return core.reshape_input, (f1,), dict(axis=ax, thread_divisor=int(rng.choice([1, 2])) if np.prod(s, dtype=int) % 2 == 0 else None)


@op
def multilevels(rng, small=False):
    n = int(rng.integers(17, 90))
    cplx = bool(rng.random() < 0.25)
    d = smooth(rng, (int(rng.integers(1, 4)), n), False).astype(conf.FDTYPE)
    kw = {}
    k = int(rng.integers(0, 6))
    if k == 0:
        return mt.multilevel, (d,), dict(level_size=8, binning=int(rng.choice([0, 1])))
    if k == 1:
        return mt.multilevel_count, (np.arange(n)[::-1] + 1., 8), dict(binning=int(rng.choice([0, 1])))
    if k == 2:
        return mt.merge_multilevel, (mt.multilevel(d, level_size=8),), dict(mode=str(rng.choice(["full", "half"])))
    if k == 3:
        return mt.log_average, (d,), dict(size=int(rng.choice([4, 8])))
    if k == 4:
        return mt.log_merge, (smooth(rng, (2, 16)), smooth(rng, (int(rng.integers(1, 4)), 2, 8))), dict(binning=int(rng.choice([0, 1])))
    return mt.log_average_count, (np.arange(n)[::-1] + 1.,), dict(size=8)


@op
def k_select(rng, small=False):
    h, w = int(rng.integers(3, 12)), int(rng.integers(2, 8))
    d = smooth(rng, (h, w, 4))
    kw = dict(angle=float(rng.choice([0, 30, 90, -45])), sector=float(rng.choice([5, 30, 90])), kstep=float(rng.choice([1, 2])))
    kw["shape"] = (h, 2 * w - 2)
    if rng.random() < 0.3:
        kw["k"] = [1, 2]

    def run(d, **kw):
        r = mp.k_select(d, **kw)
        return [r] if r is None else list(r)
    return run, (d,), kw


@op
def maps(rng, small=False):
    h, w = int(rng.integers(1, 20)), int(rng.integers(2, 12))
    shape = (h, 2 * w - 2)
    k = int(rng.integers(0, 4))
    if k == 0:
        return mp.k_indexmap, (h, w), dict(angle=float(rng.integers(-90, 90)), sector=float(rng.integers(1, 90)), shape=shape)
    if k == 1:
        km, am = mp.rfft2_kangle(h, w, shape)
        return mp.sector_indexmap, (km, am), dict(angle=float(rng.integers(-90, 90)), sector=float(rng.integers(1, 90)))
    if k == 2:
        return mp.rfft2_kangle, (h, w, shape), {}
    return mp.rfft2_grid, (h, w, shape), {}


@op
def halves(rng, small=False):
    h, w = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    a = rng.normal(size=(h, w, 3)) if rng.random() < 0.5 else rng.normal(size=(h, w, 3)) + 1j * rng.normal(size=(h, w, 3))
    k = int(rng.integers(0, 3))
    ax = (0, 1)
    if k == 0:
        return mp.as_rfft2_conj, (a,), dict(axes=ax)
    if k == 1:
        return mp.as_rfft2_data, (a,), dict(axes=ax)
    return mp.from_rfft2_data, (rng.normal(size=(h, w // 2 + 1, 2)),), dict(shape=(h, w), axes=ax)


def vid(rng, cams=None, dt="f8"):
    cams = cams or int(rng.integers(1, 3))
    h, w = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    n = int(rng.integers(1, 7))
    mk = lambda: (rng.normal(size=(h, w)) + 3).astype(dt) if dt[0] == "f" else rng.integers(1, 100, (h, w)).astype(dt)
    return [tuple(mk() for _ in range(cams)) for _ in range(n)], (h, w), cams


@op
def transforms(rng, small=False):
    v, (h, w), cams = vid(rng, dt=str(rng.choice(["f8", "f8", "u1", "u2"])))
    k = int(rng.integers(0, 4))
    ki = None if rng.random() < 0.4 else int(rng.integers(0, max(1, h // 2)))
    kj = None if rng.random() < 0.4 else int(rng.integers(0, max(1, w // 2)))
    if k == 0:
        if rng.random() < 0.3:
            v = [tuple(f + 1j * f[::-1] for f in fr) for fr in v]
        return (lambda *a: list(fft.rfft2(*a))), (v, ki, kj), {}
    if k == 1:
        return (lambda *a: list(fft.fft2(*a))), (v, ki, kj), {}
    if k == 2:
        z = [tuple(np.fft.rfft2(f) for f in fr) for fr in v]
        return (lambda *a: list(fft.normalize_fft(*a))), (z,), {}
    f = [tuple(a.astype(float) for a in fr) for fr in v]
    if rng.random() < 0.5:
        f = [tuple(a + 1j * a[::-1] for a in fr) for fr in f]
    kw = dict(kimax=ki) if ki is not None and rng.random() < 0.3 else {}
    if rng.random() < 0.5:
        return fft.dls, (f[0][0], rng.random((h, w)), np.array([[0, 0], [h // 2, 0]])), kw
    return (lambda *a, **k: list(fft.dls_video(*a, **k))), (f, rng.random((h, w)), np.array([[0, 0], [h // 2, 0]]) if rng.random() < 0.5 else (0, w // 2)), kw


@op
def windows(rng, small=False):
    s = (int(rng.integers(1, 20)), int(rng.integers(1, 20)))
    k = int(rng.integers(0, 4))
    if k == 0:
        return window.blackman, (s,), {}
    if k == 1:
        return window.gaussian, (s, float(rng.uniform(0.1, 2))), {}
    if k == 2:
        return window.tukey, (s, float(rng.uniform(0, 1))), {}
    return window.hann, (s,), {}


@op
def filters(rng, small=False):
    shape = gen.frame_shape(rng, 10) + (int(rng.integers(3, 20)),)
    d = rng.normal(size=shape)
    k = int(rng.integers(0, 6))
    if k == 0:
        return avg.denoise, (d,), {}
    if k == 1:
        return avg.median, (d if rng.random() < 0.5 else d + 1j * rng.normal(size=shape),), {}
    if k == 2:
        return avg.convolve, (d,), {}
    if k == 3:
        return avg.increasing, (d,), {}
    if k == 4:
        return avg.decreasing, (d,), {}
    x = np.cumsum(rng.integers(1, 4, shape[-1])).astype(float)
    xn = rng.uniform(0.5, x[-1] + 3, int(rng.integers(1, 9)))
    if rng.random() < 0.5:
        return avg.log_interpolate, (np.sort(xn).astype(int), x.astype(int), np.abs(d) + 1), {}
    return avg.interpolate, (np.sort(xn), x, d), {}


@op
def video_ops(rng, small=False):
    v, (h, w), cams = vid(rng)
    o = [tuple(rng.random((h, w)) + 1 for _ in range(cams)) for _ in v]
    k = int(rng.integers(0, 7))
    L = lambda f: (lambda *a, **kw: list(f(*a, **kw)))
    if k == 0:
        return L(video.subtract), (v, o), {}
    if k == 1:
        return L(video.add), (v, o), {}
    if k == 2:
        return L(video.multiply), (v, o), {}
    if k == 3:
        return L(video.normalize_video), (v,), {}
    if k == 4:
        return L(video.crop), (v,), dict(roi=(slice(0, max(1, h - 1)), slice(0, w)))
    if k == 5:
        return (lambda *a: video.asarrays(*a)), (v, len(v)), {}
    m = rng.random((h, w)) < 0.6
    return L(video.mask), (v, m), {}


@op
def simulation(rng, small=False):
    shape = (int(rng.integers(2, 20)), int(rng.integers(2, 20)))
    N = int(rng.integers(1, 5))
    p = [rng.random((N, 2)) * np.array(shape) for _ in range(4)]
    k = int(rng.integers(0, 4))
    if k == 0:
        return (lambda p, t1, t2, **kw: list(sim.particles_video(iter(p), t1, t2=t2, **kw))), (p, np.array([0, 2]), np.array([1, 3])), \
            dict(shape=shape, intensity=20, sigma=None if rng.random() < 0.4 else 1.3, background=rng.integers(0, 9, shape).astype("u1"), offset=(1.2, -3.1) if rng.random() < 0.5 else None, rotation=0.3)
    if k == 1:
        return sim.adc, (rng.uniform(0, 40000, shape),), dict(noise_model="none", bit_depth=str(rng.choice(["8bit", "12bit"])))
    if k == 2:
        return sim.coordinate_transform, (p[0], shape), dict(offset=(0.5, 1.0), rotation=0.7)
    return (lambda x, **kw: list(sim.brownian_walk(x, **kw))), (p[0],), dict(count=4, shape=shape, delta=0, velocity=(0.3, -0.7))


@op
def multi_counts(rng, small=False):
    n = int(rng.integers(17, 60))
    N = int(rng.integers(64, 300))
    k = int(rng.integers(0, 4))
    b = int(rng.choice([0, 1]))
    if k == 0:
        return mt.ccorr_multi_count, (N,), dict(level_size=16, period=1, binning=b)
    if k == 1:
        return mt.acorr_multi_count, (N,), dict(level_size=16, binning=b)
    if k == 2:
        return mt.log_merge_count, (np.arange(16)[::-1] + 1., rng.integers(1, 9, (int(rng.integers(1, 4)), 8)).astype(float)), dict(binning=b)
    return mt.t_multilevel, ((int(rng.integers(1, 5)), int(rng.integers(1, 12))),), dict(period=int(rng.integers(1, 9)))


@op
def binnings(rng, small=False):
    """what every level of the multiple-tau algorithm is made of"""
    N, s, n, f1, f2, ax, t1, t2 = _pair(rng, small)
    k = int(rng.integers(0, 3))
    fn = (mt.mean_data_parallel, mt.mean_data_cpu, mt.slice_data)[k]
    return fn, (f1 if f1.dtype.kind in "fc" else f1.astype(float),), dict(axis=ax)


@op
def full_maps(rng, small=False):
    h, w = int(rng.integers(1, 20)), int(rng.integers(1, 16))
    k = int(rng.integers(0, 6))
    sel = dict(angle=float(rng.integers(-90, 90)), sector=float(rng.integers(1, 90)))
    if k == 0:
        return mp.fft2_kangle, (h, w, (h, w)), {}
    if k == 1:
        return mp.fft2_grid, (h, w, (h, w)), {}
    if k == 2:
        km, am = mp.fft2_kangle(h, w, (h, w))
        return mp.fft2_sector_indexmap, (km, am), sel
    if k == 3:
        return mp.fft2_k_indexmap, (h, w), dict(mode="fft2", shape=(h, w), **sel)
    if k == 4:
        return mp.as_rfft2_mask, (rng.random((h, w)) < 0.5,), {}
    d = smooth(rng, (h, w, 3))
    m = rng.random((h, w)) < 0.8

    def run(d, m, **kw):
        r = mp.k_select(d, mask=m, **kw)
        return [r] if r is None else list(r)
    return run, (d, m), dict(mode="fft2", shape=(h, w), kstep=float(rng.choice([1, 2])), **sel)


@op
def crops(rng, small=False):
    h, w = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    a = rng.normal(size=(2, h, w)) + 1j * rng.normal(size=(2, h, w))
    ki = None if rng.random() < 0.3 else int(rng.integers(0, h // 2 + 1))
    if rng.random() < 0.5:
        return fft.rfft2_crop, (a, ki, None if rng.random() < 0.3 else int(rng.integers(0, w))), {}
    return fft.fft2_crop, (a, ki, None if rng.random() < 0.3 else int(rng.integers(0, w // 2 + 1))), {}


@op
def frames(rng, small=False):
    h, w = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    m = rng.random((h, w)) < 0.7
    m.ravel()[0] = True
    k = int(rng.integers(0, 4))
    c = rng.normal(size=(h, w)) + 1j * rng.normal(size=(h, w))
    if k == 0:
        return core.reshape_frame, (c[m], (int(m.sum()),), m), {}
    if k == 1:
        return core.reshape_frame, (c.reshape(1, -1), (h, w)), {}
    if k == 2:
        f = rng.normal(size=(5, h, w)) + 0j
        return core.reshape_input, (f,), dict(mask=m)
    f = (rng.normal(size=(5, h, w)) + 0j)[:, m]
    data = core.acorr(f, n=4, norm=int(rng.choice([1, 2, 3])), method="corr")
    return core.reshape_output, (data, (int(m.sum()),), m), {}


@op
def schedules(rng, small=False):
    n = 2 * int(rng.integers(1, 9))
    N = int(rng.integers(1, 40))
    k = int(rng.integers(0, 5))
    if k == 0:
        return (lambda *a: np.asarray(list(sim.create_random_time(*a)))), (N, n), {}
    if k == 1:
        return sim.create_random_times1, (N, n), {}
    if k == 2:
        return sim.create_random_times2, (N, n), {}
    if k == 3:
        return sim.random_time_count, (N, n), {}
    v, _, _ = vid(rng)
    t = np.sort(rng.choice(len(v), int(rng.integers(1, len(v) + 1)), replace=False))
    return (lambda *a: list(sim.data_trigger(*a))), (v, t), {}


@op
def scenes(rng, small=False):
    """random simulations, reproducible from the seed the caller sets"""
    shape = (int(rng.integers(2, 20)), int(rng.integers(2, 20)))
    k = int(rng.integers(0, 4))
    if k == 0:
        return (lambda **kw: [np.array(x) for x in sim.brownian_particles(**kw)]), (), dict(count=4, shape=shape, num_particles=int(rng.integers(1, 6)), delta=0.7, velocity=0.3)
    if k == 1:
        return (lambda t1, t2, **kw: list(sim.simple_brownian_video(t1, t2, **kw))), (np.array([0, 2, 3]), np.array([1, 2, 5]) if rng.random() < 0.5 else None), dict(shape=shape, num_particles=3, sigma=1.2, intensity=9)
    if k == 2:
        return sim.adc, (rng.uniform(100, 30000, shape),), dict(noise_model=str(rng.choice(["gaussian", "poisson"])), readout_noise=20., bit_depth="14bit")
    return sim.form_factor, (rng.random(shape),), dict(sigma=1.3, intensity=90, navg=2, mode=str(rng.choice(["rfft2", "fft2"])))


NAMES = list(OPS)


def build(rng, name=None, small=False):
    name = name or NAMES[int(rng.integers(len(NAMES)))]
    fn, args, kw = OPS[name](rng, small=small)
    return name, fn, args, kw


def walk(x, f):
    """the same nested structure with f applied to every array"""
    if isinstance(x, np.ndarray):
        return f(x)
    if isinstance(x, tuple):
        return tuple(walk(v, f) for v in x)
    if isinstance(x, list):
        return [walk(v, f) for v in x]
    if isinstance(x, dict):
        return {k: walk(v, f) for k, v in x.items()}
    return x


def leaves(x):
    if isinstance(x, (tuple, list)):
        return [a for v in x for a in leaves(v)]
    if isinstance(x, dict):
        return [a for k in sorted(x) for a in leaves(x[k])]
    if x is None:
        return []
    return [np.asarray(x)]


def structure(x):
    if isinstance(x, (tuple, list)):
        return [type(x).__name__] + [structure(v) for v in x]
    return None if x is None else np.shape(x)
