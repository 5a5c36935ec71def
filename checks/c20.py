"""C20: calls do not modify their inputs and do not depend on call history"""
import numpy as np
from vh import ref, gen, ops
from cddm import conf, sim, core, multitau, norm as nm, avg

PROP = "C20"
SCALE = {"quick": 3, "thorough": 40}
RULE = ("random calls from a catalogue of 42 families of operations covering every analysis module, each called with byte digests of all its arrays (nested tuples included), repeated after copies, after re-laying out its inputs (Fortran order, strided, reversed, read-only), "
        "after random sequences of other calls including failing ones, and after overwriting the previous result; distinct by (operation, argument shapes and dtypes, options)")
ASSUMPTIONS = ["random selections are repeated from the same seed", "1e-12 relative (1e-10 for other memory layouts, where sums may be taken in another order)"]
FLOORS = {"quick": {"input-kept": 12000, "repeat": 2500, "history": 6000, "layout": 2500, "fresh-result": 2500, "failed-call": 300},
          "thorough": {"input-kept": 120000, "repeat": 30000, "history": 60000, "layout": 30000, "fresh-result": 30000, "failed-call": 3000}}


def digest(x):
    out = []
    for a in ops.leaves(x):
        out.append((a.dtype.str, a.shape, a.tobytes()))
    return out


def snapshot(r):
    return ops.walk(r, lambda a: a.copy())


def relayout(rng, x):
    return ops.walk(x, lambda a: gen.layout(rng, a) if a.dtype != object else a)


def same(ctx, got, want, key, what, rtol, single=False):
    ctx.check(ops.structure(got) == ops.structure(want), key, lambda: "%s: structure of the result %r instead of %r" % (what, ops.structure(got), ops.structure(want)))
    if single and rtol:
        rtol = max(rtol, 1e-5)
    for a, b in zip(ops.leaves(got), ops.leaves(want)):
        ctx.check(a.dtype == b.dtype, key, lambda: "%s: dtype %s instead of %s" % (what, a.dtype, b.dtype))
        if a.dtype.kind in "fc":
            fin = np.abs(b[np.isfinite(b)])
            s = float(fin.max()) if fin.size else 1.0
            ok = np.isfinite(b)
            ctx.equal(np.isfinite(a), ok, key)
            ctx.close(a[ok] if a.ndim else a, b[ok] if b.ndim else b, key, rtol=rtol, scale=s)
        else:
            ctx.equal(a, b, key)




class Call:
    def __init__(self, ctx, rng, name=None):
        self.name, self.fn, self.args, self.kw = ops.build(rng, name)
        self.before = digest((self.args, self.kw))

    def run(self, ctx, args=None, kw=None, seed=7):
        args = self.args if args is None else args
        kw = self.kw if kw is None else kw
        sim.seed(seed)
        np.random.seed(seed)
        b = digest((args, kw))
        r = self.fn(*args, **kw)
        a = digest((args, kw))
        ctx.count("input-kept", len(a))
        for p, q in zip(b, a):
            if p != q:
                k = b.index(p)
                ctx.fail("input-kept", "%s modified its input array %d of shape %r" % (self.name, k, p[1]))
        return r


def failing(ctx, rng):
    """a call that fails half way must not leave a trace either"""
    k = int(rng.integers(0, 6))
    z = np.ones((8, 3, 2), complex)
    bad = [lambda: core.normalize(core.ccorr(z, z, n=4, norm=1), norm=99),
           lambda: core.ccorr(z, z[:5], n=3),
           lambda: core.iccorr(iter([(z[0], z[0])] * 3 + [(z[0], np.ones((9, 9)))] * 40), np.arange(43), np.arange(43), n=4, norm=1),
           lambda: multitau.normalize_multi(multitau.ccorr_multi(np.ones((40, 3, 2)), np.ones((40, 3, 2)), level_size=8), norm=77),
           lambda: nm.take_data((np.ones((3, 4)),), np.ones((9, 9), bool)),
           lambda: multitau.acorr_multi(z, level_size=2)]
    try:
        bad[k]()
    except Exception:
        ctx.count("failed-call")


LIBS = ("numpy", "scipy", "pyfftw")


def settings(rng):
    """settings stay the same throughout a case"""
    conf.set_fftlib(str(rng.choice(LIBS)))
    conf.set_rfft2lib(str(rng.choice(LIBS)))
    conf.set_fft_threads(int(rng.integers(1, 3)))
    return conf.CDDMConfig.fftlib, conf.CDDMConfig.rfft2lib


def case(ctx, rng, i):
    libs = settings(rng)
    c = Call(ctx, rng, ops.NAMES[i % len(ops.NAMES)])
    ctx.info = dict(operation=c.name, libs=libs, args=repr(ops.structure(c.args))[:300], kwargs=repr(ops.structure(list(c.kw.values())))[:100], options={k: v for k, v in c.kw.items() if not isinstance(v, np.ndarray)})
    r = c.run(ctx)
    want = snapshot(r)
    # the same call again; the first result must not change
    r2 = c.run(ctx)
    same(ctx, r2, want, "repeat", c.name + " repeated", 1e-12)
    same(ctx, r, want, "fresh-result", c.name + ": a later call changed an earlier result", 0)
    # overwrite what was returned (unless it is a view of the input) and repeat
    ins = ops.leaves((c.args, c.kw))
    for a in ops.leaves(r2):
        if a.flags.writeable and not any(np.shares_memory(a, b) for b in ins):
            a[...] = 113
    r3 = c.run(ctx)
    same(ctx, r3, want, "fresh-result", c.name + " after its previous result was overwritten", 1e-12)
    # other layouts of equal inputs
    for _ in range(0 if c.name == "scenes" else 2):      # noise is drawn in memory order
        la, lk = relayout(rng, c.args), relayout(rng, c.kw)
        r4 = c.run(ctx, la, lk)
        same(ctx, r4, want, "layout", c.name + " with other memory layout", 1e-10, any(a.dtype in (np.float32, np.complex64) for a in ins))
    # after other calls
    for _ in range(int(rng.integers(1, 6))):
        if rng.random() < 0.2:
            failing(ctx, rng)
        else:
            Call(ctx, rng).run(ctx, seed=int(rng.integers(99)))
        np.random.rand(3)
    r5 = c.run(ctx, ops.walk(c.args, np.copy), ops.walk(c.kw, np.copy))
    same(ctx, r5, want, "history", c.name + " after other calls", 1e-12)
    ctx.check(digest((c.args, c.kw)) == c.before, "input-kept", "%s: arguments changed by other calls" % c.name)
    ctx.mark(c.name, ops.structure(c.args), sorted((k, str(v)) for k, v in c.kw.items() if not isinstance(v, np.ndarray)))


def session(ctx, rng, i):
    """a shuffled replay of a session gives every call's first result"""
    libs = settings(rng)
    calls = [Call(ctx, rng) for _ in range(int(rng.integers(4, 14)))]
    ctx.info = dict(libs=libs, calls=[c.name for c in calls])
    first = [snapshot(c.run(ctx, seed=k)) for k, c in enumerate(calls)]
    for _ in range(2):
        for k in rng.permutation(len(calls)):
            c = calls[int(k)]
            same(ctx, c.run(ctx, seed=int(k)), first[int(k)], "history", c.name + " in a shuffled session", 1e-12)
    ctx.mark("session", [c.name for c in calls])


STREAMS = {
    "case": dict(fn=case, quick=950, thorough=950),
    "session": dict(fn=session, quick=100, thorough=100),
}
