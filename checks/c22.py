"""C22: results do not depend on target, precision, FFT library, thread counts or concurrent callers"""
import os, sys, threading, time
import numpy as np
from vh import ops, peer
from cddm import conf, sim
import cddm

PACKAGE = os.path.dirname(cddm.__file__)

PROP = "C22"
CONFIGS = ("default", "parallel", "single", "fastmath")
PEER = True
SCALE = {"quick": 1, "thorough": 12}
RULE = ("random calls from the catalogue of 41 operation families evaluated under each compile configuration (parallel target, fast math, single precision) and, for identical inputs, in a peer process running the default configuration; "
        "in every configuration under random FFT libraries and FFT/numba thread counts; and from several threads at once on separate data; distinct by (operation, configuration, argument shapes, options)")
ASSUMPTIONS = ["single precision is compared for inputs rounded to single precision, within 2e-5 of the scale plus ten times the change caused by a 2e-6 relative perturbation of the inputs (ill-conditioned normalizations)",
               "random draws use numpy's generator, seeded equally", "concurrent callers do not change settings and use no random selection"]
FLOORS = {"quick": {"config-result": 3000, "config-dtype": 1500, "settings-result": 3000, "concurrent-result": 3000, "preempted-result": 3000, "preemption": 800},
          "thorough": {"config-result": 40000, "config-dtype": 15000, "settings-result": 40000, "concurrent-result": 40000, "preempted-result": 40000, "preemption": 8000}}

# families whose floating point results have the configured precision
TYPED = ("cross_correlate", "cross_difference", "auto_correlate", "auto_difference", "cross_fft", "auto_fft", "cross_sum", "auto_sum", "sum_fft",
         "ccorr", "acorr", "iccorr", "iacorr", "ccorr_multi", "acorr_multi", "iccorr_multi", "iacorr_multi", "normalize", "normalize_multi", "take_data")
SUMS = ("cross_correlate", "cross_difference", "auto_correlate", "auto_difference", "cross_fft", "auto_fft", "cross_sum", "auto_sum", "sum_fft",
        "ccorr", "acorr", "iccorr", "iacorr", "ccorr_multi", "acorr_multi", "iccorr_multi", "iacorr_multi", "take_data")
# random draws are only reproducible for the cpu target and one caller
NAMES = [n for n in ops.NAMES if n != "scenes"]
_peer = []


def setup(ctx):
    if ctx.config != "default":
        _peer.append(peer.Peer())
    sys.setswitchinterval(1e-4)


def magnitude(args):
    """largest product of two data values times the number of frames: what sums of the correlation family are made of"""
    m, n = 1.0, 1
    for a in ops.leaves(list(args)):
        if a.dtype.kind in "fciu" and a.size:
            v = np.abs(a.astype(complex))
            v = v[np.isfinite(v)]
            if v.size:
                m = max(m, float(v.max()))
        if a.ndim:
            n = max(n, max(a.shape))
    for x in args:
        if isinstance(x, list):
            n = max(n, len(x))
    return m * m * n


def run(fn, args, kw):
    sim.seed(7)
    np.random.seed(7)
    return fn(*args, **kw)


def compare(ctx, name, got, want, pert, base, floor, key, what, int_tol=0):
    ctx.check(ops.structure(got) == ops.structure(want), key, lambda: "%s: structure of the result %r instead of %r" % (what, ops.structure(got), ops.structure(want)))
    P = [ops.leaves(p) for p in pert]
    for j, (a, b) in enumerate(zip(ops.leaves(got), ops.leaves(want))):
        ctx.check(a.dtype.kind == b.dtype.kind, key, lambda: "%s: dtype %s instead of %s" % (what, a.dtype, b.dtype))
        if b.dtype.kind in "fc":
            ok = np.isfinite(b)
            for p in P:
                ok &= np.isfinite(p[j])
            scale = max(float(np.abs(b[ok]).max()) if ok.any() else 0.0, floor)
            cond = max([float(np.abs(p[j] - b)[ok].max()) for p in P] or [0.0]) if ok.any() else 0.0
            if not P:
                ctx.equal(np.isfinite(a), np.isfinite(b), key)
            ctx.close(a[ok], b[ok], key, rtol=base, atol=10 * cond, scale=scale)
        elif int_tol and b.dtype.kind in "iu":
            ctx.close(a.astype(float), b.astype(float), key, rtol=0, atol=int_tol)
        else:
            ctx.equal(a, b, key)


def seed_of(rng):
    return [int(v) for v in rng.integers(0, 2 ** 31, 3)]


def random_settings(rng):
    conf.set_fftlib(str(rng.choice(["numpy", "scipy", "pyfftw"])))
    conf.set_rfft2lib(str(rng.choice(["numpy", "scipy", "pyfftw"])))
    conf.set_fft_threads(int(rng.integers(1, 5)))
    conf.set_numba_threads(int(rng.integers(1, 5)))
    return conf.CDDMConfig.fftlib, conf.CDDMConfig.rfft2lib, conf.CDDMConfig.fft_threads, conf.CDDMConfig.numba_threads


def config(ctx, rng, i):
    """the same call in this configuration and in the default one"""
    seed = seed_of(rng)
    name = NAMES[i % len(NAMES)]
    single = conf.PRECISION == "single"
    eps = 2e-6 if single else 1e-13
    status, res = _peer[0](seed, name, single, eps)
    if status != "ok":
        raise RuntimeError("default configuration: " + res)
    conf.set_fftlib("numpy")
    name, fn, args, kw = ops.build(np.random.default_rng(seed), name)
    s = random_settings(rng)
    if single:
        args, kw = peer.quantize(args, True), peer.quantize(kw, True)
    ctx.info = dict(operation=name, settings=s, args=repr(ops.structure(args))[:200], options={k: v for k, v in kw.items() if not isinstance(v, np.ndarray)})
    r = run(fn, args, kw)
    floor = magnitude(args) if name in SUMS else 0.0
    compare(ctx, name, r, res[0], res[1:], 2e-5 if single else 1e-11, floor, "config-result", "%s in configuration %s" % (name, ctx.config), int_tol=len(args[0][0]) if single and name == "simulation" and isinstance(args[0], list) else (1 if single and name == "simulation" else 0))
    for a, b in zip(ops.leaves(r), ops.leaves(res[0])):
        if name in TYPED and b.dtype.kind in "fc":
            want = b.dtype
            if single:
                want = {np.dtype("f8"): conf.FDTYPE, np.dtype("c16"): conf.CDTYPE}.get(b.dtype, b.dtype)
            ctx.check(a.dtype == want, "config-dtype", "%s: a result has dtype %s in %s precision, expected %s" % (name, a.dtype, conf.PRECISION, want))
    ctx.mark(ctx.config, name, ops.structure(args), sorted((k, str(v)) for k, v in kw.items() if not isinstance(v, np.ndarray)))


def settings(ctx, rng, i):
    """the same call under other FFT libraries and thread counts"""
    name = NAMES[i % len(NAMES)]
    conf.set_fftlib("numpy"), conf.set_rfft2lib("numpy"), conf.set_fft_threads(1), conf.set_numba_threads(1)
    name, fn, args, kw = ops.build(rng, name)
    if conf.PRECISION == "single":
        args, kw = peer.quantize(args, True), peer.quantize(kw, True)
    base = 1e-11 if conf.PRECISION == "double" else 2e-5
    any_single = any(a.dtype in (np.float32, np.complex64) for a in ops.leaves((args, kw)))
    want = ops.walk(run(fn, args, kw), np.copy)
    floor = magnitude(args) if name in SUMS + ("transforms",) else 0.0
    for _ in range(3):
        s = random_settings(rng)
        ctx.info = dict(operation=name, settings=s, options={k: v for k, v in kw.items() if not isinstance(v, np.ndarray)})
        r = run(fn, args, kw)
        compare(ctx, name, r, want, [], 1e-5 if any_single else base, floor, "settings-result", "%s with %r" % (name, s))
        ctx.mark(name, s)


RANDOM = ("simulation", "scenes", "schedules")


def usable(rng):
    while True:
        name, fn, args, kw = ops.build(rng)
        if name in RANDOM or kw.get("binning") == 2 or "choose" in repr(kw):
            continue
        return name, fn, args, kw


def concurrent(ctx, rng, i):
    """several callers at once on separate data"""
    s = random_settings(rng)
    if conf.NUMBA_PARALLEL:
        conf.set_numba_threads(1)
    nthr = int(rng.integers(2, 6))
    same = rng.random() < 0.4       # the same operation on separate data, or a mixture
    name0 = NAMES[int(rng.integers(len(NAMES)))]
    jobs = []
    for t in range(nthr):
        mine = []
        for _ in range(int(rng.integers(2, 7))):
            mine.append(ops.build(rng, name0) if same and name0 not in RANDOM else usable(rng))
        mine = [m for m in mine if m[3].get("binning") != 2]
        jobs.append(mine)
    want = [[ops.walk(fn(*a, **k), np.copy) for _, fn, a, k in mine] for mine in jobs]
    got = [[None] * len(mine) for mine in jobs]
    err = []
    start = threading.Barrier(nthr)
    order = [int(v) for v in rng.integers(0, 3, nthr)]

    def work(t):
        start.wait()
        for j, (name, fn, a, k) in enumerate(jobs[t]):
            if order[t]:
                time.sleep(0.0002 * order[t])
            try:
                got[t][j] = ops.walk(fn(*a, **k), np.copy)
            except BaseException as e:
                err.append("%s: %s: %s" % (name, type(e).__name__, e))
                return
    thr = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nthr)]
    ctx.info = dict(settings=s, callers=nthr, operations=[[m[0] for m in mine] for mine in jobs])
    for t in thr:
        t.start()
    for t in thr:
        t.join()
    ctx.check(not err, "concurrent-result", lambda: "concurrent call raised: %s" % err[0])
    for mine, g, w in zip(jobs, got, want):
        for (name, fn, a, k), x, y in zip(mine, g, w):
            compare(ctx, name, x, y, [], 1e-12, magnitude(a) if name in SUMS else 0.0, "concurrent-result", "%s called concurrently" % name)
    ctx.mark(nthr, s, tuple(tuple(m[0] for m in mine) for mine in jobs))


def varied(rng, args, kw):
    """the same call on other data: times and settings as they are"""
    f = float(rng.integers(2, 5))

    def other(a):
        return (a * f)[...].astype(a.dtype) if a.dtype.kind in "fc" else a.copy()
    return ops.walk(args, other), ops.walk(kw, other)


class Preempt:
    """Runs a call, stopping it before chosen lines of the package to let another call run to its end in another thread."""

    def __init__(self, points=(), other=None):
        self.n, self.points, self.other, self.error = 0, set(points), other, None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if event == "line":
            if self.n in self.points:
                self.visit()
            self.n += 1
        return self.trace

    def visit(self):
        def work():
            try:
                self.other()
            except BaseException as e:
                self.error = e
        t = threading.Thread(target=work, daemon=True)
        t.start()
        t.join()

    def __call__(self, fn, args, kw):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return fn(*args, **kw)
        finally:
            sys.settrace(old)


def preempted(ctx, rng, i):
    """a call interrupted between any two lines by a complete call of another thread"""
    s = random_settings(rng)
    if rng.random() < 0.5:
        conf.set_fftlib("scipy")
    names = [n for n in NAMES if n not in RANDOM]
    seed = seed_of(rng)

    def one(seed):
        r = np.random.default_rng(seed)
        for _ in range(20):
            name, fn, args, kw = ops.build(r, names[i % len(names)])
            if not (kw.get("binning") == 2 or "choose" in repr(kw)):
                return name, fn, args, kw
        return None
    a = one(seed)
    if a is None:
        return
    b = one(seed_of(rng) if rng.random() < 0.3 else seed)
    if b is None:
        return
    b = b[:2] + varied(rng, b[2], b[3])
    name, fn, args, kw = a
    ctx.info = dict(operation=name, settings=s, options={k: v for k, v in kw.items() if not isinstance(v, np.ndarray)})
    try:
        wb = ops.walk(b[1](*b[2], **b[3]), np.copy)
    except Exception:
        return ctx.count("other-data-rejected")
    wa = ops.walk(fn(*args, **kw), np.copy)
    lines = Preempt()
    compare(ctx, name, lines(fn, args, kw), wa, [], 1e-12, magnitude(args) if name in SUMS else 0.0, "preempted-result", "%s" % name)
    if not lines.n:
        return
    for k in sorted(set(int(v) for v in rng.integers(0, lines.n, 12 if ctx.tier == "quick" else 40))):
        got = []
        p = Preempt([k], lambda: got.append(ops.walk(b[1](*b[2], **b[3]), np.copy)))
        r = p(fn, args, kw)
        ctx.check(p.error is None, "preempted-result", lambda: "%s called while another call of it was under way raised %r" % (name, p.error))
        what = "%s, another call of it made by a second thread at line event %d of %d" % (name, k, lines.n)
        compare(ctx, name, r, wa, [], 1e-12, magnitude(args) if name in SUMS else 0.0, "preempted-result", what)
        for g in got:
            compare(ctx, name, g, wb, [], 1e-12, magnitude(b[2]) if name in SUMS else 0.0, "preempting-result", what)
            ctx.count("preemption")
            ctx.mark("preempted", name, k)


def crowded(ctx, rng, i):
    """many overlapping particles: no contribution is lost under any target"""
    shape = (int(rng.integers(2, 16)), int(rng.integers(2, 16)))
    n = int(rng.integers(300, 1500))
    sigma = float(rng.choice([0.7, 1.0, 1.5]))
    inten = int(rng.integers(2, 6))
    pts = (rng.random((n, 2)) * shape).astype(conf.FDTYPE)
    s = random_settings(rng)
    conf.set_numba_threads(int(rng.integers(2, conf.detect_number_of_cores() + 1)))
    ctx.info = dict(shape=shape, particles=n, sigma=sigma, intensity=inten, settings=s)
    kw = dict(shape=shape, intensity=inten, sigma=sigma, dtype="uint16", background=np.zeros(shape, "u2"))
    (whole,), = list(sim.particles_video(iter([pts]), [0], **kw))
    want = np.zeros(shape, np.int64)
    for a in range(n):
        for fr in sim.particles_video(iter([pts[a:a + 1]]), [0], **kw):
            want += fr[0]
    ctx.equal(whole, want, "crowded")
    ctx.mark("crowded", shape, n, sigma)


STREAMS = {
    "crowded": dict(fn=crowded, quick=48, thorough=24, configs=("default", "parallel", "single")),
    "config": dict(fn=config, quick=1400, thorough=1400, configs=("parallel", "single", "fastmath")),
    "settings": dict(fn=settings, quick=700, thorough=700, configs=("default", "parallel", "single", "fastmath")),
    "preempted": dict(fn=preempted, quick=640, thorough=640, configs=("default",)),
    "concurrent": dict(fn=concurrent, quick=250, thorough=250, configs=("default",)),
}
