"""C21: no public call reads or writes memory outside its arrays"""
import numpy as np
from vh import ref, gen, ops, guard, worker
from cddm import core, norm as nm, multitau as mt, map as mp, fft, window, avg, video, sim

PROP = "C21"
POISON = False
CONFIGS = ("bounds", "default")
SCALE = {"quick": 1, "thorough": 10}
RULE = ("the catalogue of valid calls with extreme sizes, and hostile calls (delays beyond the recording, negative, huge or coincident times, single and zero-size frames, mismatched shapes and lengths, out-of-range options, particles outside the frame), "
        "(1) with every kernel compiled with bounds checking, (2) with inputs, outputs and temporaries ending or starting at inaccessible pages, (3) twice with different contents of newly allocated memory; distinct by (operation, shapes, outcome)")
ASSUMPTIONS = ["invalid input may be rejected with any exception but the kernel's own out-of-bounds report", "FFT based calls get times that span at most some thousand frames", "memory allocated inside numpy below 1 kB is refilled by pattern, larger blocks only by numpy.empty interception"]
FLOORS = {"quick": {"bounds-checked": 6000, "guarded": 5000, "guard-pages": 20000, "initialised": 8000, "hostile-accepted": 1500, "hostile-rejected": 800},
          "thorough": {"bounds-checked": 60000, "guarded": 50000, "guard-pages": 200000, "initialised": 80000, "hostile-accepted": 15000, "hostile-rejected": 8000}}

_empty, _zeros, _empty_like = np.empty, np.zeros, np.empty_like


def fill(pattern):
    """contents of memory that will be allocated next"""
    for n in range(8, 1024, 8):
        l = [_empty(n, np.uint8) for _ in range(5)]
        for a in l:
            a.fill(pattern)
        del l


class Alloc:
    """numpy.empty hands out memory with the given contents; with guard=True also between inaccessible pages"""

    def __init__(self, pattern, guarded=False, end=True):
        self.pattern, self.guarded, self.end = pattern, guarded, end

    def _fill(self, a):
        if a.dtype.hasobject or a.size == 0:
            return a
        try:
            if a.flags.c_contiguous or a.flags.f_contiguous:
                a.reshape(-1, order="A").view(np.uint8)[...] = self.pattern
        except (ValueError, TypeError):
            pass
        return a

    def __enter__(self):
        def empty(shape, dtype=float, *a, **k):
            if self.guarded and not a and not (set(k) - {"order"}) and k.get("order", "C") == "C":
                g = guard.empty(shape, dtype, self.end, self.pattern)
                if g is not None:
                    return g
            return self._fill(_empty(shape, dtype, *a, **k))

        def empty_like(*a, **k):
            return self._fill(_empty_like(*a, **k))

        def zeros(shape, dtype=float, *a, **k):
            if self.guarded and not a and not k:
                g = guard.empty(shape, dtype, self.end, 0)
                if g is not None:
                    return g
            return _zeros(shape, dtype, *a, **k)
        np.empty, np.empty_like, np.zeros = empty, empty_like, zeros
        fill(self.pattern)
        return self

    def __exit__(self, *exc):
        np.empty, np.empty_like, np.zeros = _empty, _empty_like, _zeros


def attempt(fn, args, kw):
    """('ok', leaves) or ('error', exception)"""
    sim.seed(3)
    np.random.seed(3)
    try:
        r = fn(*args, **kw)
        if hasattr(r, "__next__"):
            r = list(r)
        return "ok", [np.array(a) for a in ops.leaves(r)]
    except Exception as e:
        return "error", e


def is_bounds_error(e):
    while e is not None:
        if isinstance(e, IndexError) and str(e).strip() == "index is out of bounds":
            return True
        e = e.__cause__ or e.__context__
    return False


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind in "fc":
            if not (np.array_equal(x, y, equal_nan=True) or np.allclose(x, y, rtol=1e-9, atol=0, equal_nan=True)):
                return False
        elif x.dtype.kind != "O" and not np.array_equal(x, y):
            return False
    return True


def examine(ctx, name, fn, mk, hostile=False):
    """mk() -> (args, kw) with fresh arrays each time"""
    results = []
    for pattern in (0x7f, 0x11):
        args, kw = mk()
        with Alloc(pattern):
            results.append(attempt(fn, args, kw))
    (s1, r1), (s2, r2) = results
    for s, r in results:
        if s == "error":
            ctx.check(not is_bounds_error(r), "bounds-checked" if ctx.config == "bounds" else "unguarded", lambda: "%s: a kernel accesses memory outside of its arrays (%r)" % (name, r))
        else:
            ctx.count("bounds-checked" if ctx.config == "bounds" else "unguarded")
    ctx.check(s1 == s2, "initialised", lambda: "%s: outcome depends on the contents of uninitialised memory: %r / %r" % (name, r1, r2))
    if s1 == "ok":
        ctx.check(same(r1, r2), "initialised", lambda: "%s: result depends on the contents of uninitialised memory: %s / %s" % (name, worker._short([a.tolist() for a in r1], 900), worker._short([a.tolist() for a in r2], 900)))
    elif not hostile:
        raise r1
    if hostile:
        ctx.count("hostile-accepted" if s1 == "ok" else "hostile-rejected")
    if ctx.config == "default":
        for end in (True, False):
            args, kw = mk()
            n0 = guard.made[0]
            args, kw = ops.walk(args, lambda a: guard.copy(a, end)), ops.walk(kw, lambda a: guard.copy(a, end))
            with Alloc(0x33, True, end):
                s3, r3 = attempt(fn, args, kw)
            ctx.count("guard-pages", guard.made[0] - n0)
            ctx.check(s3 == s1, "guarded", lambda: "%s: outcome in guarded memory %r, otherwise %r" % (name, r3, r1))
            if s3 == "ok":
                ctx.check(same(r1, r3), "guarded", lambda: "%s: result in guarded memory differs" % name)
    return s1, r1


def valid(ctx, rng, i):
    name = ops.NAMES[i % len(ops.NAMES)]
    st = rng.bit_generator.state

    def mk():
        r = np.random.default_rng(0)
        r.bit_generator.state = st
        _, fn, args, kw = ops.build(r, name, small=True)
        mk.fn = fn
        return args, kw
    mk()
    a, k = mk()
    ctx.info = dict(operation=name, args=repr(ops.structure(a))[:200], options={q: v for q, v in k.items() if not isinstance(v, np.ndarray)})
    s, r = examine(ctx, name, mk.fn, mk)
    ctx.mark(name, ops.structure(a), s, sorted((q, str(v)) for q, v in k.items() if not isinstance(v, np.ndarray)))


H = {}


def hostile_op(f):
    H[f.__name__] = f
    return f


def hostile_times(rng, N):
    k = int(rng.integers(0, 8))
    if k == 0:
        return rng.integers(-5, 5, N)
    if k == 1:
        return rng.integers(-10 ** 12, 10 ** 12, N)
    if k == 2:
        return np.full(N, int(rng.integers(-10 ** 6, 10 ** 6)))
    if k == 3:
        return np.arange(N)[::-1] * int(rng.integers(1, 1000))
    if k == 4:
        return np.arange(N) + int(rng.integers(-10 ** 9, 10 ** 9))
    if k == 5:
        return np.arange(N + int(rng.integers(-1, 2)))      # wrong length
    if k == 6:
        return np.arange(N, dtype=np.int32) * 1000003
    return np.arange(N)


def hostile_data(rng, N=None):
    N = int(rng.choice([0, 1, 1, 2, 3, 9])) if N is None else N
    s = [(), (0,), (1,), (3,), (1, 1), (2, 3), (0, 2), (2, 1, 2)][int(rng.integers(8))]
    return rng.integers(-9, 10, (N,) + s) + 1j * rng.integers(-9, 10, (N,) + s)


@hostile_op
def kernels(rng):
    f1 = hostile_data(rng)
    N = len(f1)
    f2 = f1[::-1] * 2 if rng.random() < 0.8 else hostile_data(rng)
    t1, t2 = (hostile_times(rng, N), hostile_times(rng, len(f2))) if rng.random() < 0.7 else (None, None)
    n = [None, 1, 2, N, N + 1, 5 * N + 7, 200, 0, -1][int(rng.integers(9))]
    if n is None and t1 is not None:
        n = 3
    kw = dict(n=n, axis=int(rng.integers(0, f1.ndim)) if rng.random() < 0.3 else 0, align=bool(rng.random() < 0.5))
    k = int(rng.integers(0, 6))
    if k in (0, 1, 4) and rng.random() < 0.4:
        kw["complex"] = True
    if rng.random() < 0.3:
        sh = tuple(np.delete(np.array(f1.shape), kw["axis"])) + (int(rng.integers(0, 12)),)
        kw["aout"] = np.zeros(sh, complex if rng.random() < 0.7 else float)
    if k == 0:
        return core.cross_correlate, (f1, f2, t1, t2), kw
    if k == 1:
        return core.auto_correlate, (f1, t1), kw
    if k == 2:
        return core.cross_difference, (f1, f2, t1, t2), kw
    if k == 3:
        return core.auto_difference, (f1, t1), kw
    if k == 4:
        return core.cross_sum, (f1, t1, t2), kw
    return core.auto_sum, (f1, t1), kw


@hostile_op
def count_kernels(rng):
    N = int(rng.choice([0, 1, 2, 5, 20]))
    t1, t2 = hostile_times(rng, N), hostile_times(rng, int(rng.choice([0, 1, N, N, 7])))
    n = [1, 2, N, N + 1, 300, 0, -2][int(rng.integers(7))]
    if rng.random() < 0.5:
        return core.auto_count, (t1,), dict(n=n)
    return core.cross_count, (t1, t2), dict(n=n, complex=bool(rng.random() < 0.4))


@hostile_op
def correlations(rng):
    f1 = hostile_data(rng)
    f2 = f1 * 1j if rng.random() < 0.8 else hostile_data(rng)
    kw = dict(n=[None, 1, 3, 50, 0][int(rng.integers(5))], norm=int(rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 99])), method=str(rng.choice(["corr", "diff", "fft", "other"])))
    t1, t2 = (np.abs(hostile_times(rng, len(f1))) % 1000, np.abs(hostile_times(rng, len(f2))) % 1000) if rng.random() < 0.5 else (None, None)
    if rng.random() < 0.5:
        return core.acorr, (f1, t1), kw
    return core.ccorr, (f1, f2, t1, t2), kw


@hostile_op
def multis(rng):
    f1 = hostile_data(rng, int(rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 70])))
    f2 = f1 * 1j
    kw = dict(level_size=int(rng.choice([1, 2, 3, 5, 6, 7, 8, 15, 16, 64])), norm=int(rng.choice([1, 2, 3])), method=str(rng.choice(["corr", "diff", "fft"])))
    if rng.random() < 0.4:
        kw["nlevel"] = int(rng.choice([0, 1, 2, 5, 9]))
    if rng.random() < 0.3:
        kw["period"] = int(rng.choice([0, 1, 2, 5]))
    if rng.random() < 0.4:
        kw["binning"] = int(rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.3 and f1.ndim == 3:
        kw["mask"] = rng.random(f1.shape[1:]) < 0.5
    if rng.random() < 0.3:
        kw["thread_divisor"] = int(rng.choice([1, 2, 3, 7]))
    if rng.random() < 0.2:
        kw["complex"] = True
    if rng.random() < 0.5:
        return mt.acorr_multi, (f1,), kw
    return mt.ccorr_multi, (f1, f2), kw


@hostile_op
def streams(rng):
    N = int(rng.choice([1, 2, 3, 8, 9, 16, 17, 31, 40]))
    s = [(2, 3), (1, 1), (1, 4), (0, 2), (3,)][int(rng.integers(5))]
    fr = [tuple(rng.integers(-9, 10, s) + 1j * rng.integers(-9, 10, s) for _ in range(2)) for _ in range(N)]
    two = bool(rng.random() < 0.5)
    t1 = np.cumsum(rng.integers(0, 4, N)) if rng.random() < 0.5 else np.arange(N)
    t2 = t1 + rng.integers(0, 3, N)
    kw = dict(norm=int(rng.choice([1, 2, 3, 5, 7])), method=str(rng.choice(["corr", "diff", "fft"])))
    if rng.random() < 0.4:
        kw["chunk_size"] = int(rng.choice([1, 2, 4, 8, 16, 30, 64]))
    if rng.random() < 0.3:
        kw["count"] = int(rng.choice([1, 5, N, N - 1 if N > 1 else 1]))
    if rng.random() < 0.3:
        kw["mask"] = rng.random(s) < 0.5
    if rng.random() < 0.3:
        kw["auto_background"] = True
    if rng.random() < 0.2:
        kw["complex"] = True
    if rng.random() < 0.3:
        kw["mode"] = "chunk" if rng.random() < 0.5 else "full"
    kw2 = dict(kw)
    if rng.random() < 0.5:
        kw2["n"] = int(rng.choice([1, 2, 3, 4, 8, 16, 33]))

        def run(fr, *t, **k):
            r = (core.iccorr if two else core.iacorr)(fr, *t, **k)
            return list(r) if hasattr(r, "__next__") else r
    else:
        kw2["level_size"] = int(rng.choice([2, 4, 8, 16]))
        if rng.random() < 0.4:
            kw2["binning"] = int(rng.choice([0, 1, 2]))
        if rng.random() < 0.4:
            kw2["nlevel"] = int(rng.choice([0, 1, 2, 6]))

        def run(fr, *t, **k):
            r = (mt.iccorr_multi if two else mt.iacorr_multi)(fr, *t, **k)
            return list(r) if hasattr(r, "__next__") else r
    return run, ((fr if two else [f[0] for f in fr]),) + ((t1, t2) if two else (t1,)), kw2


@hostile_op
def logs(rng):
    n = int(rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 64]))
    lead = [(), (1,), (3,), (0,), (2, 2)][int(rng.integers(5))]
    d = rng.normal(size=lead + (n,))
    if rng.random() < 0.2:
        d = d + 1j
    s = int(rng.choice([0, 1, 2, 3, 4, 5, 8, 16]))
    k = int(rng.integers(0, 8))
    b = int(rng.choice([0, 1, 2, -1]))
    f = dict(fold=bool(rng.random() < 0.5)) if np.iscomplexobj(d) else {}
    if k == 0:
        return mt.multilevel, (d,), dict(level_size=s, binning=b, **f)
    if k == 1:
        return mt.multilevel_count, (np.abs(d.real), s), dict(binning=b)
    if k == 2:
        return mt.log_average, (d,), dict(size=s, **f)
    if k == 3:
        return mt.log_average_count, (np.abs(d.real),), dict(size=s)
    if k == 4:
        return mt.merge_multilevel, (rng.normal(size=(int(rng.integers(0, 4)), 2, s)),), dict(mode=str(rng.choice(["full", "half", "x"])))
    if k == 5:
        return mt.log_merge, (d, rng.normal(size=(int(rng.integers(0, 4)),) + lead + (s,))), dict(binning=b, **f)
    if k == 6:
        return mt.t_multilevel, ((int(rng.integers(0, 4)), s),), dict(period=int(rng.integers(0, 4)))
    return nm.fold_data, (d + 0j,), dict(mode=int(rng.choice([0, 1, -1, 2])))


@hostile_op
def smoothers(rng):
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 9]))
    lead = [(), (1,), (3,), (0,), (2, 2)][int(rng.integers(5))]
    d = rng.normal(size=lead + (n,))
    if rng.random() < 0.3 and d.size:
        d.ravel()[int(rng.integers(d.size))] = float(rng.choice([np.nan, np.inf, -np.inf, 1e300]))
    k = int(rng.integers(0, 7))
    if k == 0:
        return avg.median, (d,), {}
    if k == 1:
        return avg.convolve, (d,), {}
    if k == 2:
        return avg.denoise, (d,), dict(n=int(rng.choice([0, 1, 4])))
    if k == 3:
        return avg.increasing, (d,), {}
    if k == 4:
        return avg.decreasing, (d,), {}
    x = rng.integers(-3, 9, n) if rng.random() < 0.5 else np.arange(n)
    xn = rng.integers(-9, 30, int(rng.integers(0, 6)))
    if k == 5:
        return avg.log_interpolate, (np.abs(xn), np.abs(x), d), {}
    return avg.interpolate, (xn.astype(float), x.astype(float), d), {}


@hostile_op
def mapping(rng):
    h, w = int(rng.integers(0, 8)), int(rng.integers(0, 8))
    shape = None if rng.random() < 0.3 else (int(rng.integers(0, 9)), int(rng.integers(0, 9)))
    k = int(rng.integers(0, 6))
    ang, sec, st = float(rng.choice([0, 90, -180, 361, 1e6])), float(rng.choice([0, 1e-9, 5, 180, 400, -5])), float(rng.choice([0.5, 1, 3, 100]))
    if k == 0:
        return (lambda d, **q: [r for r in [mp.k_select(d, **q)] if r is not None] if q.get("k") is None or np.isscalar(q.get("k")) else mp.k_select(d, **q)), (rng.normal(size=(h, w, 3)),), \
            dict(angle=ang, sector=sec, kstep=st, shape=shape, k=[None, 1, 50, [0, 2, 99], -1][int(rng.integers(5))], mode=str(rng.choice(["rfft2", "fft2"])))
    if k == 1:
        return mp.fft2_k_indexmap, (h, w), dict(angle=ang, sector=sec, kstep=st, shape=shape, mode=str(rng.choice(["rfft2", "fft2"])))
    if k == 2:
        return mp.rfft2_kangle, (h, w, shape), {}
    if k == 3:
        return mp.fft2_kangle, (h, w, shape), {}
    a = rng.normal(size=(h, w, 2)) + 1j
    if k == 4:
        return (mp.as_rfft2_conj if rng.random() < 0.5 else mp.as_rfft2_data), (a,), dict(axes=(0, 1))
    return mp.from_rfft2_data, (a,), dict(shape=shape, axes=(0, 1))


@hostile_op
def spectra(rng):
    h, w = int(rng.integers(0, 7)), int(rng.integers(0, 7))
    v = [(rng.normal(size=(h, w)),) for _ in range(2)]
    ki, kj = [None, 0, 1, 3, 50, -1, -9][int(rng.integers(7))], [None, 0, 1, 3, 50, -1, -9][int(rng.integers(7))]
    k = int(rng.integers(0, 4))
    if k == 0:
        return (lambda *a: list(fft.rfft2(*a))), (v, ki, kj), {}
    if k == 1:
        return (lambda *a: list(fft.fft2(*a))), (v, ki, kj), {}
    if k == 2:
        return (fft.rfft2_crop if rng.random() < 0.5 else fft.fft2_crop), (v[0][0] + 0j, ki, kj), {}
    return fft.dls, (v[0][0], np.ones((h, w)), np.array([[int(rng.integers(-9, 9)), int(rng.integers(-9, 9))]])), dict(kimax=ki, kjmax=kj)


@hostile_op
def videos(rng):
    v, (h, w), cams = ops.vid(rng)
    roi = tuple(slice(int(rng.integers(-9, 9)), int(rng.integers(-9, 20)), [None, 1, 2, -1][int(rng.integers(4))]) for _ in range(2))
    k = int(rng.integers(0, 4))
    if k == 0:
        return (lambda *a, **q: list(video.crop(*a, **q))), (v,), dict(roi=roi)
    if k == 1:
        return video.asarrays, (v, int(rng.choice([0, 1, len(v), len(v) + 1, len(v) + 5]))), {}
    if k == 2:
        return (lambda *a: list(video.mask(*a))), (v, rng.random((h + int(rng.integers(0, 2)), w)) < 0.5), {}
    return (lambda *a: list(video.subtract(*a))), (v, [tuple(f[: max(1, h - 1)] for f in fr) for fr in v]), {}


@hostile_op
def particles(rng):
    shape = (int(rng.integers(1, 9)), int(rng.integers(1, 9)))
    N = int(rng.choice([0, 1, 3]))
    p = [rng.normal(size=(N, 2)) * float(rng.choice([1, 20, 1000])) for _ in range(3)]
    kw = dict(shape=shape, sigma=[None, 0.1, 1.0, 5.0, 40.0][int(rng.integers(5))], intensity=int(rng.choice([0, 1, 200])), dtype=str(rng.choice(["uint8", "uint16"])),
              background=rng.integers(0, 5, (shape if rng.random() < 0.8 else (3, 3))).astype("u1") if rng.random() < 0.5 else 0)
    if rng.random() < 0.4:
        kw["offset"] = tuple(rng.normal(size=2) * 50)
    if rng.random() < 0.4:
        kw["rotation"] = float(rng.normal() * 9)
    k = int(rng.integers(0, 5))
    if k <= 2:
        return (lambda p, t1, t2, **q: list(sim.particles_video(iter(p), t1, t2=t2, **q))), (p, np.array([0, 2]), np.array([0, 1]) if rng.random() < 0.7 else None), kw
    if k == 3:
        return sim.adc, (rng.normal(size=(3, 3)) * 1e6,), dict(noise_model="none", bit_depth=str(rng.choice(["8bit", "16bit", "1bit"])), saturation=int(rng.choice([1, 100000])))
    return sim.coordinate_transform, (p[0], shape), dict(offset=(1e4, -1e4))


@hostile_op
def normalizing(rng):
    data, (bg, var), shape = ops.corr_data(rng, bool(rng.random() < 0.5))
    kw = dict(norm=int(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16])), mode=str(rng.choice(["corr", "diff", "x"])), scale=bool(rng.random() < 0.5))
    k = int(rng.integers(0, 6))
    if k == 0:
        data = tuple(None if (x is None or rng.random() < 0.3) else x for x in data)
    elif k == 1:
        bg = None
    elif k == 2:
        kw["mask"] = rng.random((shape[0] + 1, shape[1])) < 0.5
    elif k == 3:
        kw["mask"] = np.zeros(shape, bool)
    elif k == 4:
        kw["out"] = np.zeros(shape + (int(rng.integers(0, 12)),), complex if rng.random() < 0.3 else float)
    else:
        kw["weight"] = rng.random(shape + (int(rng.integers(1, 9)),))
    return core.normalize, (data, bg, var), kw


HN = list(H)


def hostile(ctx, rng, i):
    name = HN[i % len(HN)]
    st = rng.bit_generator.state

    def mk():
        r = np.random.default_rng(0)
        r.bit_generator.state = st
        mk.fn, args, kw = H[name](r)
        return args, kw
    a, k = mk()
    ctx.info = dict(operation=name, function=getattr(mk.fn, "__name__", "?"), args=repr([worker._short(x, 120) for x in a])[:400], options={q: worker._short(v, 60) for q, v in k.items()})
    s, r = examine(ctx, name + "/" + getattr(mk.fn, "__name__", "?"), mk.fn, mk, True)
    ctx.mark(name, ops.structure(a), s, sorted((q, str(v)) for q, v in k.items() if not isinstance(v, np.ndarray)), "" if s == "ok" else type(r).__name__)


STREAMS = {
    "valid": dict(fn=valid, quick=1900, thorough=1900, configs=("bounds", "default")),
    "hostile": dict(fn=hostile, quick=2600, thorough=2600, configs=("bounds", "default"), probe=True),
}
