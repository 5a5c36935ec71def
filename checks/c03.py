"""C03: acorr/ccorr tuples hold exactly the pieces the norm needs, each equal to its definition"""
import numpy as np
from vh import ref, gen
from cddm import core

PROP = "C03"
RULE = ("acorr/ccorr on random integer-valued stacks over every supported (method, norm), regular/irregular times, axis, align, delay count, complex, "
        "with and without user-supplied squares; distinct by (auto, method, norm, times kind, ndim, axis, complex, squares given, n class)")
ASSUMPTIONS = ["FFT results within 1e-11 of the total power; direct results exact", "FFT with distinct times per camera"]
FLOORS = {"quick": {"tuple-direct": 500, "tuple-fft": 200, "rejected": 30},
          "thorough": {"tuple-direct": 5000, "tuple-fft": 2000, "rejected": 30}}


def compare(ctx, got, want, fft, scale, method):
    ctx.check(isinstance(got, tuple) and len(got) == len(want), "tuple-length", lambda: "%d" % len(got))
    names = ["corr", "count", "m1", "m2"] if method == "diff" else ["corr", "count", "sq", "m1", "m2"]
    for g, w, nm in zip(got, want, names):
        if w is None:
            ctx.check(g is None, "absent-" + nm, "piece not required by the norm is present")
        elif nm == "count":
            ctx.equal(g, w, "piece-count")
        elif fft and nm != "count":
            ctx.check(g is not None, "present-" + nm, "missing")
            ctx.close(g, w, "piece-" + nm, rtol=1e-11, scale=scale)
        else:
            ctx.check(g is not None, "present-" + nm, "missing")
            ctx.equal(g, w, "piece-" + nm)
    ctx.count("tuple-fft" if fft else "tuple-direct")


def large(ctx, rng, i):
    """long recordings and large frames"""
    case(ctx, rng, i, True)


def case(ctx, rng, i, large=False):
    auto = bool(rng.random() < 0.45)
    method = str(rng.choice(["corr", "corr", "fft", "fft", "diff", "default"]))
    N = int(rng.choice([1, 2, 4, 7, 8, 13, 20])) if not large else int(rng.integers(21, 600))
    shape = gen.frame_shape(rng, 12 if not large else 4 if N > 100 else 200)
    mm = method
    r = rng.random()
    n = None if r < 0.3 else int(rng.integers(1, N + 1)) if r < 0.8 else N + int(rng.integers(1, 10))
    if method == "default":
        mm = "fft" if n is None else "corr"
    times = bool(rng.random() < 0.5)
    t1 = t2 = None
    kind = "none"
    if times:
        t1, kind = gen.times(rng, N, distinct=mm == "fft" or auto)
        t2, _ = gen.times(rng, N, distinct=mm == "fft" or auto)
    r1 = np.arange(N) if t1 is None else t1
    r2 = np.arange(N) if t2 is None else t2
    if auto:
        full = 1 + int(r1.max() - r1.min())
    else:
        full = 1 + max(int(r2.max() - r1.min()), int(r1.max() - r2.min()))
        full = max(full, 1)
    nn = full if n is None else n
    if mm == "diff":
        norm = int(rng.choice([2] if auto else [2, 6]))
        default = 2 if auto else 6
    else:
        norm = int(rng.choice([1, 2, 3, 5, 6, 7]))
        default = 7
    normarg = norm
    if rng.random() < 0.15:
        normarg, norm = None, default
    cplx = bool(rng.random() < 0.4) and mm != "diff"
    a1, dk = gen.values(rng, (N,) + shape)
    a2, _ = gen.values(rng, (N,) + shape)
    axis = int(rng.integers(0, len(shape) + 1))
    f1, f2 = gen.layout(rng, gen.put_axis(a1, axis)), gen.layout(rng, gen.put_axis(a2, axis))
    if rng.random() < 0.3:
        f1, f2 = np.ascontiguousarray(f1), np.ascontiguousarray(f2)
    s1 = s2 = F1s = F2s = None
    if mm != "diff" and rng.random() < 0.3:
        which = int(rng.choice([1, 2, 3, 3])) if not auto else 1
        if which & 1:
            s1 = rng.integers(0, 50, a1.shape).astype(float)
            F1s = gen.layout(rng, gen.put_axis(s1, axis))
        if which & 2:
            s2 = rng.integers(0, 50, a1.shape).astype(float)
            F2s = gen.layout(rng, gen.put_axis(s2, axis))
    if rng.random() < 0.08:
        # one camera given twice
        a2, f2 = a1, f1
    if rng.random() < 0.3:
        axis -= f1.ndim
    kw = dict(n=n, norm=normarg, method=None if method == "default" else method, align=bool(rng.random() < 0.4), axis=axis)
    if mm != "diff":
        kw["complex"] = cplx
    ctx.info = dict(auto=auto, t1=t1, t2=t2, shape=f1.shape, dtype=dk, squares=(s1 is not None, s2 is not None), **kw)
    fft = mm == "fft"
    scale = max(1.0, float(ref.abs2(a1).sum()), float(ref.abs2(a2).sum()), 100.0 * a1.size)
    c1, c2 = gen.clock(rng, t1, t2)
    if auto:
        got = core.acorr(f1, c1, fs=F1s, **kw)
        want = ref.acorr_tuple(a1, r1, nn, norm, mm, cplx, fs=s1)
    else:
        got = core.ccorr(f1, f2, c1, c2, f1s=F1s, f2s=F2s, **kw)
        want = ref.ccorr_tuple(a1, a2, r1, r2, nn, norm, mm, cplx, f1s=s1, f2s=s2)
    if mm == "diff" and not auto:
        # the difference tuple holds the means only when the norm needs them
        want = (want[0], want[1], want[2] if norm & 4 else None, want[3] if norm & 4 else None)
    compare(ctx, got, want, fft, scale, mm)
    if (want[1][1:] > 0).any():
        ctx.mark(auto, method, norm, kind, f1.ndim, axis, cplx, s1 is not None, s2 is not None, n is None or n > N)


def methods_agree(ctx, rng, i):
    """direct and FFT give the same tuple on float data; a stack of pixels equals its pixels one by one"""
    N = int(rng.integers(2, 40))
    auto = bool(rng.random() < 0.5)
    pix = int(rng.integers(1, 5))
    f1 = rng.normal(size=(N, pix)) + 1j * rng.normal(size=(N, pix))
    f2 = rng.normal(size=(N, pix)) + 1j * rng.normal(size=(N, pix))
    t1 = t2 = None
    if rng.random() < 0.6:
        t1, _ = gen.times(rng, N, distinct=True)
        t2, _ = gen.times(rng, N, distinct=True)
    n = int(rng.integers(1, 50))
    norm = int(rng.choice([1, 2, 3, 5, 6, 7]))
    cplx = bool(rng.random() < 0.5)
    ctx.info = dict(auto=auto, N=N, n=n, norm=norm, complex=cplx, t1=t1, t2=t2)
    def run(method, a, b, **k):
        if auto:
            return core.acorr(a, t1, n=n, norm=norm, method=method, complex=cplx, **k)
        return core.ccorr(a, b, t1, t2, n=n, norm=norm, method=method, complex=cplx, **k)
    d, f = run("corr", f1, f2), run("fft", f1, f2)
    s = 10.0 * N
    for x, y in zip(d, f):
        ctx.check((x is None) == (y is None), "same-pieces")
        if x is not None:
            ctx.close(y, x, "fft-vs-direct", rtol=1e-12, scale=s)
    al = run("corr", f1, f2, align=True)
    for x, y in zip(d, al):
        if x is not None:
            ctx.close(y, x, "align", rtol=1e-12, scale=s)
    j = int(rng.integers(0, pix))
    o = run("corr", f1[:, j], f2[:, j])
    for k, (x, y) in enumerate(zip(d, o)):
        if x is not None:
            ctx.close(y, x if k == 1 else x[j], "pixel-alone", rtol=1e-12, scale=s)
    ctx.mark("agree", auto, norm, cplx, t1 is None, n > N)


def reject(ctx, rng, i):
    f = rng.normal(size=(6, 2)) + 0j
    for norm in (0, 4, 8, 9, 16, -1):
        for m in ("corr", "fft"):
            ctx.raises(ValueError, lambda: core.acorr(f, n=3, norm=norm, method=m), "rejected", "norm %d" % norm)
            ctx.raises(ValueError, lambda: core.ccorr(f, f, n=3, norm=norm, method=m), "rejected", "norm %d" % norm)
    for norm in (0, 1, 3, 4, 5, 7, 8):
        ctx.raises(ValueError, lambda: core.ccorr(f, f, n=3, norm=norm, method="diff"), "rejected", "diff norm %d" % norm)
        ctx.raises(ValueError, lambda: core.acorr(f, n=3, norm=norm, method="diff"), "rejected", "diff norm %d" % norm)
    ctx.raises(ValueError, lambda: core.acorr(f, n=3, norm=6, method="diff"), "rejected", "auto diff norm 6")
    ctx.raises(ValueError, lambda: core.acorr(f, n=3, method="foo"), "rejected", "method")
    ctx.raises(ValueError, lambda: core.ccorr(f, f, n=3, method="foo"), "rejected", "method")
    ctx.raises(ValueError, lambda: core.ccorr(f, f, n=3, method="diff", complex=True), "rejected", "complex diff")
    ctx.raises(ValueError, lambda: core.ccorr(f, f[:5], n=3), "rejected", "shapes")
    ctx.raises(ValueError, lambda: core.ccorr(f, f, np.arange(6), None, n=3), "rejected", "t2")


STREAMS = {"tuples": dict(fn=case, quick=2000, thorough=30000), "large": dict(fn=large, quick=50, thorough=2500), "agree": dict(fn=methods_agree, quick=300, thorough=5000),
           "reject": dict(fn=reject, quick=1, thorough=1)}
